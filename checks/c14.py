"""C14: citation network."""
import netcase


def main(ck):
    netcase.cases(ck, 'cite', ['CiClosed'], ck.n(900, 12000), ck.n(450, 8000))
    ck.validate('Trace_Network')
