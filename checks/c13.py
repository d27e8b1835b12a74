"""C13: co-citation network."""
import netcase


def main(ck):
    netcase.cases(ck, 'cocite', ['CoClosed', 'Symmetric', 'FilterOnlyRemoves'], ck.n(900, 12000), ck.n(450, 8000))
    ck.validate('Trace_Network')
