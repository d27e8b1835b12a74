"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    d['anchors']['observe_at'] = observe or ['public API return values, attributes and written files']
    d['anchors']['hook_needed'] = None
    P.append(d)
M = 'metaknowledge/'

p('C01', 'Collections behave as sets of records under any history of operations',
  'After any sequence of constructions, additions, removals, pops, clears, copies and |, &, -, ^ operations (binary or in place) on record or grant collections, every collection holds exactly the records that set algebra over record identity (ID for good records, content for damaged ones) prescribes, each once, and ID lookup, membership, length, equality and hash agree with that content. '
  'An operation changes no collection other than the one it writes, copies are independent, and the results of binary and in-place operations carry the bad flag and the errors of both operands. '
  'Removing or popping something absent raises KeyError and adding a non-record raises CollectionTypeError, leaving the collection unchanged.',
  ['histories', 'inputs'], 'every history of collection operations over any number of collections holding good, equal-ID and damaged records',
  'tests apply single operations to a few fixed files; the algebra, aliasing and error carrying must hold for every operation sequence and every overlap of contents, including equal-ID records held as different objects',
  [M+'mkCollection.py', M+'recordCollection.py', M+'grantCollection.py', M+'mkRecord.py'],
  [('set operators and mutable-set methods', M+'mkCollection.py Collection'), ('ID methods', M+'mkCollection.py CollectionWithIDs'), ('record identity', M+'mkRecord.py Record.__hash__/__eq__')],
  [('_collection', 'the set of records', M+'mkCollection.py'), ('bad/errors', 'reading trouble carried by a collection', M+'mkCollection.py')])

p('C02', 'Selecting, splitting and filtering collections gives exactly the right records',
  'For every collection, chunk and split partition its records into pieces of at most the requested size (split emptying the original, chunk leaving it intact), yearSplit keeps exactly the records whose year lies in the closed interval and optionally drops those without a year, and dropNonJournals keeps exactly the records of the wanted (or, inverted, unwanted) publication type. '
  'citeFilter and localCitesOf return exactly the records with a citation matching the criterion (exact string, substring, author, journal, year, volume, page, DOI or anonymity; or equality with the given citation/record), badEntries exactly the damaged ones and dropBadEntries removes exactly those. '
  'Selections return the original records and leave the collection they select from unchanged unless documented to edit it in place.',
  ['inputs', 'configurations'], 'every collection, size, interval, criterion and flag combination, including records lacking the field involved',
  'tests check a few sizes and years on one file; the guarantees must hold for every size/length relation, boundary year, missing field and criterion',
  [M+'mkCollection.py', M+'recordCollection.py', M+'citation.py'],
  [('chunk/split', M+'mkCollection.py'), ('yearSplit, dropNonJournals, citeFilter, localCitesOf', M+'recordCollection.py'), ('badEntries/dropBadEntries', M+'mkCollection.py')])

p('C03', 'A record is a consistent mapping whatever was looked up before',
  'For every record, any sequence of lookups by tag or long name gives results that depend only on the record and the key: a tag and its long name give equal values, membership, indexing and get agree on whether a key exists, and values never change because of earlier lookups. '
  'Raw access returns the stored strings, iteration and length describe exactly the stored tags, and copies and pickles give equal records with the same values that are independent of the original. '
  'Two good records of a source compare equal and hash alike exactly when their IDs agree.',
  ['histories', 'inputs'], 'every record of every source and every interleaving of lookups, membership tests, copies and pickles',
  'tests query a few tags once; the memoised view must be consistent for every order of queries and for every tag, including absent and special ones',
  [M+'mkRecord.py', M+'WOS/recordWOS.py', M+'medline/recordMedline.py', M+'scopus/recordScopus.py', M+'proquest/recordProQuest.py'],
  [('memoisation and alternative names', M+'mkRecord.py ExtendedRecord.__getitem__/__contains__/get')],
  [('_computedFields', 'values computed so far', M+'mkRecord.py')])

p('C04', 'Raw field text is decoded to the documented values for every source',
  'For every record, each tag or common field (title, authors full and short, year, month, abstract, keywords, DOI, volume, pages, journal, citations, grants, address-to-author mappings and the rest) has the value and type the documentation prescribes as a function of the stored raw lines alone: line-wrapped text is joined (Medline titles and abstracts keep their line breaks), one-per-line and separator-delimited fields become lists in stored order, numbers become numbers and citations become citation objects. A field that is absent in the raw record is absent in the decoded view. No element of a list-valued field is lost, duplicated or reordered.',
  ['inputs'], 'every raw value of every tag of the four record sources',
  'tests check a handful of values of one record; the decoders have per-tag rules that must hold for any number of lines, separators and wrapped text',
  [M+'WOS/tagProcessing/tagFunctions.py', M+'WOS/tagProcessing/funcDicts.py', M+'medline/tagProcessing/tagFunctions.py', M+'medline/tagProcessing/specialFunctions.py', M+'scopus/recordScopus.py', M+'scopus/tagProcessing/specialFunctions.py', M+'proquest/recordProQuest.py', M+'proquest/tagProcessing/tagFunctions.py'],
  [('tag functions', M+'WOS/tagProcessing/tagFunctions.py'), ('name dictionaries', M+'WOS/tagProcessing/funcDicts.py')])

p('C05', 'Reading a Web of Science file yields every intact record and reports damage',
  'For every file recognised as Web of Science, reading it never raises, every intact record block up to the first damage is returned with exactly the tags and lines of the file in order, and a well-formed file is read completely without error. If a block is malformed, the file is truncated, lacks its end marker or has content after it, the collection is marked bad with an error for that file (or a record is marked bad), and no damage changes the content of the intact records. Records carry the file and line they came from.',
  ['inputs', 'fault_sequences'], 'every sequence of lines after the header: any number of records, wrapped fields, missing markers, truncation at any line, malformed lines at any position',
  'tests read five damaged sample files; truncation at every line and every placement of a malformed line is a space they do not touch',
  [M+'WOS/wosHandlers.py', M+'WOS/recordWOS.py'],
  [('line state machine', M+'WOS/wosHandlers.py wosParser'), ('record parser', M+'WOS/recordWOS.py recordParser')])

p('C06', 'Web of Science collections survive writing and reading back',
  'Writing any collection of good Web of Science records and reading the file back gives a collection equal to the original in which every record has exactly the same tags, in the same order, with the same lines, marked not bad. '
  'Writing a collection does not change it, and a file written from a read file reads back equal again. '
  'A damaged record is refused with an error rather than written as if it were good.',
  ['inputs', 'histories'], 'every collection of good records with any tags, any number of lines and any text without line breaks',
  'the tests write one sample file; nothing samples the space of field shapes, unusual characters, empty lines or repeated write/read cycles',
  [M+'recordCollection.py', M+'WOS/recordWOS.py', M+'WOS/wosHandlers.py'],
  [('writeFile', M+'recordCollection.py'), ('writeRecord', M+'WOS/recordWOS.py')])

p('C07', 'Medline files are read faithfully and survive writing and reading back',
  'For every Medline file, reading returns one record per PMID block with exactly the tags of the file and, for each tag, its values in order, wrapped lines joined, never raises, and marks malformed blocks as bad without altering the other records. Writing a collection of good Medline records and reading it back gives an equal collection in which every record has the same tags with the same values in the same order, including which address and identifier belongs to which author (of authors with different names). Writing does not change the collection.',
  ['inputs', 'fault_sequences'], 'every sequence of Medline lines and every collection of Medline records, with any interleaving of author, full-author, affiliation and identifier lines and damage at any line',
  'tests read and write one sample file; author/affiliation interleavings and malformed lines at arbitrary positions are unsampled',
  [M+'medline/medlineHandlers.py', M+'medline/recordMedline.py', M+'recordCollection.py'],
  [('medlineParser', M+'medline/medlineHandlers.py'), ('medlineRecordParser, writeRecord', M+'medline/recordMedline.py')])

p('C08', 'Scopus CSV files are read faithfully and survive writing and reading back',
  'For every Scopus CSV file, reading returns one record per row whose fields are exactly the non-empty cells of the row under their column names, including cells with commas, quotes and doubled quotes, never raises, and reports rows that cannot be records. Writing a collection of Scopus records and reading it back gives an equal collection with the same values of the standard columns for every record. Decoded citations, authors and grants of the re-read records equal those of the originals.',
  ['inputs', 'fault_sequences'], 'every table of cells (any text, quoting, column subset and order the header allows) and damage at any row',
  'tests read and write one sample; quoting and column combinations are unsampled',
  [M+'scopus/scopusHandlers.py', M+'scopus/recordScopus.py', M+'recordCollection.py'],
  [('scopusParser', M+'scopus/scopusHandlers.py'), ('scopusRecordParser, writeRecord', M+'scopus/recordScopus.py')])

p('C09', 'ProQuest files are read faithfully',
  'For every ProQuest plain-text export, reading returns one record per document block with exactly its labelled fields and their values, including multi-line and multi-value fields, in order. '
  'Reading never raises; malformed or truncated files and blocks are marked bad or reported as an error of that file, while intact blocks keep exactly their own content. '
  'The decoded authors, keywords, subjects, year, URL and title are those of the stored fields.',
  ['inputs', 'fault_sequences'], 'every sequence of blocks and fields, truncation at any line',
  'tests read one sample file',
  [M+'proquest/proQuestHandlers.py', M+'proquest/recordProQuest.py', M+'proquest/tagProcessing/tagFunctions.py'],
  [('proQuestParser', M+'proquest/proQuestHandlers.py'), ('proQuestRecordParser', M+'proquest/recordProQuest.py')])

p('C10', 'A directory reads as the union of its files; each file goes to the right reader',
  'Reading a directory of record (or grant) files gives the union of what reading each recognised file with the requested extension gives on its own, with the union of their errors and the collection marked bad exactly when some file reported an error, independent of the order of the files. '
  'Each recognised file is read as the source it was exported from; with no extension requested unrecognised files are skipped, with one requested they raise BadInputFile, and single files that are unrecognised or lack the extension raise. '
  'Reading never modifies the directory when caching is off.',
  ['inputs', 'configurations'], 'every directory content (mixture of sources, unknown files, damaged files, subdirectories, names) and every extension',
  'tests read one directory with one kind of file; mixtures, orders and extensions are unsampled',
  [M+'recordCollection.py', M+'grantCollection.py', M+'fileHandlers.py', M+'WOS/wosHandlers.py', M+'medline/medlineHandlers.py', M+'scopus/scopusHandlers.py', M+'proquest/proQuestHandlers.py', M+'grants/baseGrant.py'],
  [('directory branch of the constructors', M+'recordCollection.py RecordCollection.__init__'), ('detector order', M+'fileHandlers.py')])

p('C11', 'Caching a directory never changes what reading it returns',
  'For any history of creating, editing, adding and removing files, damaging or truncating the cache and interrupting its writing, reading the directory with caching gives exactly the collection, records, bad flag and errors that reading without caching gives at that moment. '
  'A cache made for another set of files, another modification time, extension, collection name or program version is never used, and an unusable cache is replaced silently rather than raising. '
  'Records loaded from a cache are as usable as freshly read ones.',
  ['histories', 'crash_points', 'fault_sequences'], 'every history of directory edits, cached and uncached reads, cache corruption and crashes while writing the cache (at every byte boundary class)',
  'one test reads a cached directory twice; histories of edits, crash points during the cache write and corruption are unreachable for it',
  [M+'mkCollection.py', M+'recordCollection.py', M+'grantCollection.py'],
  [('_loadFromCache/_createCache', M+'mkCollection.py'), ('cached branch of the constructors', M+'recordCollection.py')],
  [('cache file', 'pickle of file times and the collection', M+'mkCollection.py _createCache')])

p('C12', 'Citations are parsed to the right fields and compared consistently',
  'For every Web of Science citation string, the author (title case, periods dropped), year, journal, volume, page and DOI are exactly the corresponding parts of the text, absent parts are absent, and text that fits no part is kept as miscellaneous and marks the citation bad; Scopus citations give their author, year, journal, volume, issue and pages likewise, and those that cannot be read are bad but keep their text. '
  'Two citations are equal exactly when they name the same author, year and journal, which is an equivalence consistent with hashing, sets and copying or pickling (also into another process), whatever their volume, page, DOI or letter case. '
  'Identity, extra information, anonymity, journal lookup and the original string are functions of the text alone and never change by looking a citation up or comparing it.',
  ['inputs', 'histories'], 'every combination of present and absent parts, anonymous authors, malformed strings, and every pair of citations, in every order of lookups, copies and pickles',
  'tests parse a few strings; the case analysis over part combinations and the equivalence over all pairs is unsampled',
  [M+'citation.py'],
  [('parser', M+'citation.py Citation.__init__'), ('identity', M+'citation.py Citation.__eq__/__hash__/ID')])

p('C13', 'The co-citation network counts exactly the co-cited pairs',
  'For every collection, networkCoCitation has a node for exactly the citations that pass the filters and occur in some record, each with the number of times it occurs across records as count, and an undirected edge between two nodes exactly when citations of both are in the citation list of a common record, weighted by the number of such pairs of citations over all records (a node whose citations pair with one another has a self loop). '
  'Dropping anonymous, non-journal, keyword-matching or core-only citations, counting or weighting off, different node types and full information change only what they are documented to change. '
  'With an expanded core every citation in the network that is a record of the collection also has a node for each of the other authors of that record, which are connected, carry the attributes of the node they are copies of and share its edges, nothing else of the network changing. The result does not depend on the order of records or citations.',
  ['inputs', 'configurations'], 'every collection and combination of options',
  'tests compare node and edge totals of one file for a few options; the per-node and per-edge numbers for arbitrary collections and option combinations are unsampled',
  [M+'recordCollection.py', M+'graphHelpers.py'],
  [('networkCoCitation', M+'recordCollection.py'), ('addToNetwork, filterCites, makeID', M+'recordCollection.py')])

p('C14', 'The citation network links citing records to what they cite',
  'For every collection, networkCitation has a node for each citing record (one that has citations and whose own citation passes the filters) and for each of its citations that passes them, and an edge between the record and each of these citations in the requested direction, the weight being the number of times that pair occurs and the year difference that of the two works. '
  'Node counts (appearances as citing record plus appearances as citation), restriction to the collection, directed or undirected form, node types and filters behave as documented and affect nothing else. '
  'With an expanded core every citation in the network that is a record of the collection also has a node for each of the other authors of that record, which are connected, carry the attributes of the node they are copies of and share its edges, nothing else of the network changing. The result does not depend on the order of records or citations.',
  ['inputs', 'configurations'], 'every collection and combination of options',
  'tests compare totals of one file for a few options',
  [M+'recordCollection.py'], [('networkCitation', M+'recordCollection.py')])

p('C15', 'The bibliographic coupling network counts shared citations',
  'For every collection, the bibliographic coupling network has one node for each record that cites something or is cited in the collection, and an edge between exactly those pairs of different records that share at least one citation, with weight equal to the number of different works both cite. '
  'Nodes appear once per record and edges are undirected. '
  'The result does not depend on the order of records or citations.',
  ['inputs', 'configurations'], 'every collection',
  'tests compare totals of one file', [M+'recordCollection.py'], [('networkBibCoupling', M+'recordCollection.py')])

p('C16', 'The co-author network counts papers and collaborations',
  'For every collection, networkCoAuthor has one node per author of a record with count equal to the number of appearances of that author on records, and an edge between exactly the authors who appear together on a record, weighted by the number of such joint appearances. '
  'Records without authors contribute nothing and single-author records contribute isolated nodes. '
  'Detailed information and citation-profile attributes are those of the author\'s records and do not leak between authors.',
  ['inputs', 'configurations'], 'every collection and option combination',
  'tests compare totals of one file', [M+'recordCollection.py'], [('networkCoAuthor', M+'recordCollection.py')])

p('C17', 'Tag networks count co-occurrences of field values',
  'For every collection and choice of fields, one-mode, two-mode and multi-mode networks have a node for exactly each value occurring in the chosen fields with the number of its occurrences as count and a field it occurs in as type, and an edge between values that occur together in a record (in the same field, across the two fields, or across any of the fields), weighted by the number of co-occurrences. '
  'Stemming, weighting and counting off, record type tags, and edge attributes (one edge per value of the attribute field, weighted by its co-occurrences) and node attributes (the distinct values the node occurs with) do exactly what is documented, and multi-level networks also connect values of the same field. '
  'Records lacking a field contribute only what they have, and the result does not depend on record order.',
  ['inputs', 'configurations'], 'every collection, field choice and option combination',
  'tests compare totals of one file for a few field choices',
  [M+'mkCollection.py'], [('networkOneMode, networkTwoMode, networkMultiMode, networkMultiLevel', M+'mkCollection.py')])

p('C18', 'Graph edits remove exactly what they are asked to remove',
  'For every graph, dropEdges removes exactly the edges with weight below the minimum or above the maximum, or the self loops, dropNodesByDegree and dropNodesByCount remove exactly the nodes whose degree (number or total weight of the edges touching the node) or count lies below the minimum or above the maximum, with their edges, and nothing else changes; elements without the number are kept, counted as 1 in degrees, or refused with KeyError, as requested. Successive edits have the effect of the combined bounds for edges and counts. Graph statistics and degree tables report the true numbers of nodes, edges, isolates, self loops, density, transitivity and degrees of the graph.',
  ['inputs', 'histories', 'configurations'], 'every weighted graph, directed or not, every bound, parameter name, degree form and sequence of edits',
  'tests apply a few edits to one network and check totals',
  [M+'graphHelpers.py'], [('dropEdges, dropNodesByDegree, dropNodesByCount, graphStats', M+'graphHelpers.py')])

p('C19', 'Merging graphs adds counts and weights',
  'Merging two graphs leaves the union of their nodes and edges, with count and weight (or the named attribute) of shared nodes and edges the sum over both graphs and the other attributes those of the first graph, or of the second where only it has the node or edge, and leaves the second graph unchanged. Merging is commutative and associative in nodes, edges and sums. The network of two disjoint collections equals the merge of their networks, for co-citation, citation, co-author and tag networks.',
  ['inputs', 'histories'], 'every pair and triple of graphs and every partition of a collection',
  'one test merges two copies of one network',
  [M+'graphHelpers.py', M+'recordCollection.py', M+'mkCollection.py'], [('mergeGraphs', M+'graphHelpers.py')])

p('C20', 'Written graph files read back to the same graph',
  'Writing any graph with writeGraph (edge list and node attributes) and reading it with readGraph gives a graph with the same nodes, edges, weights, counts and attributes (as text or numbers; a missing attribute or None reads as empty), for any node names, with or without suffixes, file names, directed or undirected as requested, and writeEdgeList/writeNodeAttributeFile write exactly the edges and nodes. With overwriting off an existing file is never modified and an error is raised. The tnet output lists exactly the edges, in the required number of directions, with consistent node numbering and weights.',
  ['inputs', 'configurations'], 'every graph with any attributes and node names (including commas, quotes, unicode) and every option combination',
  'one test round-trips one network and compares totals',
  [M+'graphHelpers.py'], [('writeGraph, writeEdgeList, writeNodeAttributeFile, writeTnetFile, readGraph', M+'graphHelpers.py')])

p('C21', 'Diffusion counts are the exact numbers of citing records',
  "For every pair of source and target collections, diffusionCount gives each source record (or each value of the requested field of the source records) exactly the number of citations that target records make of it (of records with that value), with zero for uncited ones, by any of its authors or the first as requested, and optionally broken down by the values of a further field of the citing records. The tabular form contains exactly the same counts, with the record's own values, and local counts are those of the source collection citing itself. Neither collection is changed and the result does not depend on record order.",
  ['inputs', 'configurations'], 'every pair of collections and every option combination',
  'tests check totals for one pair of collections',
  [M+'diffusion.py'], [('diffusionCount', M+'diffusion.py')])

p('C22', 'The diffusion graph has exactly the source-cites-target edges',
  "For every pair of source and target collections, diffusionGraph between list-valued fields has an edge from a source value to a target value exactly when a target record with that value cites a source record with that value, weighted by the number of such citations, with nodes flagged as source and/or target according to where they occur. Labelled multi-edges split the same citations by the citing record's values of the label field without losing or inventing any. diffusionAddCountsFromSource sets each node of a network to the diffusion count of the source value or citation it stands for, and changes nothing else.",
  ['inputs', 'configurations'], 'every pair of collections and every option combination',
  'tests check totals for one pair of collections',
  [M+'diffusion.py'], [('diffusionGraph, diffusionAddCountsFromSource', M+'diffusion.py')])

p('C23', 'Ranked series, time series and co-occurrence tables count exactly',
  'For every collection and field, rankedSeries lists exactly the values occurring in that field with their numbers of occurrences in the requested order, with ranks that follow the counts, limited to the requested values. '
  'timeSeries gives for each value and each year it occurs in its number of occurrences in that year, ordered by year and limited as requested (without a field, each record and its year), and cooccurrenceCounts gives for each value of the key field the exact number of times each value of the counted fields occurs together with it. '
  'List, table and file outputs agree with one another.',
  ['inputs', 'configurations'], 'every collection, field and option combination, including records lacking the field or the year',
  'tests check lengths or the head of the result for one file',
  [M+'mkCollection.py'], [('rankedSeries, timeSeries, cooccurrenceCounts', M+'mkCollection.py')])

p('C24', 'Citation statistics count exactly the citations made',
  'For every collection, localCiteStats counts for each cited work (or author, journal or year, as requested) exactly how often it is cited, getCitations lists exactly the citations selected with their multiplicities and shares, and rpys gives for each publication year of cited works the number of citations, its deviation from the median of the surrounding five years and the rank of the deviation. Year bounds restrict rpys to exactly the years inside, without changing what is said of those. Totals over all entries equal the number of citations that carry the field.',
  ['inputs', 'configurations'], 'every collection and every option combination',
  'tests check a few numbers of one file',
  [M+'recordCollection.py', M+'mkRecord.py'], [('localCiteStats, rpys', M+'recordCollection.py'), ('getCitations', M+'mkRecord.py')])

p('C25', 'Tabular exports contain every record once with its own values',
  "For every collection, makeDict gives equal-length columns and writeCSV a file with one row per record, whose cells are that record's own values for the selected fields, joined with the list delimiter, empty when absent, with author and gender counts when requested. Selected, first and long-named tags give exactly the requested columns in the documented order, and splitting by a tag writes each record once to exactly one file for each of its values. Rows of one record never mix with values of another.",
  ['inputs', 'configurations'], 'every collection, option combination and cell text (delimiters, quotes, unicode)',
  'tests check that the file exists or its length',
  [M+'recordCollection.py'], [('makeDict, writeCSV', M+'recordCollection.py')])

p('C26', 'Text preparation keeps and removes exactly what it is asked to',
  "For every collection, forNLP gives one row per record with that record's ID, year, title, keywords, abstract and the extra columns asked for, the abstract processed exactly by the requested steps (dropped words and phrases, lower case, removal of numbers, of punctuation and of repeated white space, of copyright statements, stemming) and in agreement with the written file. forBurst gives exactly the words of the chosen field, processed the same way, paired with their record's year. findProbableCopyright returns exactly the copyright statements at the ends of the abstracts.",
  ['inputs', 'configurations'], 'every text and option combination',
  'tests check lengths of one file for a few options',
  [M+'recordCollection.py'], [('forNLP, forBurst, findProbableCopyright, findCopyright', M+'recordCollection.py')])

p('C27', 'BibTeX output contains every record and every field value',
  'For every record, the BibTeX entry is well formed and contains its identifier, authors joined with "and", and every (or, restricted, every common) field with its complete value, for text with balanced braces and no backslashes. writeBib writes exactly one entry per record of the collection. A damaged record is refused with an error.',
  ['inputs', 'configurations'], 'every record and option combination (length limit, WOS mode, restricted output, ID style)',
  'tests compare a digest for one record',
  [M+'mkRecord.py', M+'recordCollection.py'], [('bibString, _bibFormatter', M+'mkRecord.py'), ('writeBib', M+'recordCollection.py')])

p('C28', 'Grant files are read faithfully and split grants are merged',
  'For every grant file (NSF, NSERC, CIHR or other CSV), each row or award becomes one grant with exactly its cell or element values, grants without their required key are marked bad, and investigators and institutions are exactly the names in the fields its kind of grant knows plus the requested ones. An NSERC grant spread over several rows or files becomes a single grant holding every non-empty value. Grant strings of Medline and Scopus records are split into the documented parts without losing text. A grant is a mapping with text keys: setting, removing and updating change exactly the entries named, of that grant only, and a copy of a grant is independent of it.',
  ['inputs', 'configurations'], 'every table of cells, XML award and grant string, every distribution of a grant over rows and files',
  'tests check totals of the sample files',
  [M+'grants/nsercGrant.py', M+'grants/nsfGrant.py', M+'grants/cihrGrant.py', M+'grants/baseGrant.py', M+'grants/medlineGrant.py', M+'grants/scopusGrant.py', M+'grantCollection.py'],
  [('parsers', M+'grants/'), ('update (merging)', M+'grants/nsercGrant.py')])

p('C29', 'Co-investigator and co-institution networks count grants exactly',
  'For every grant collection, networkCoInvestigator has a node for exactly each investigator name with the number of its appearances as count, and an edge for exactly each pair named on a common grant, weighted by the number of such pairings; networkCoInvestigatorInstitution does the same for institutions. '
  'Extra tags, separators, counting and weighting options do what is documented. '
  'The result does not depend on the order of grants.',
  ['inputs', 'configurations'], 'every grant collection and option combination',
  'tests check totals for one collection',
  [M+'grantCollection.py', M+'grants/baseGrant.py'], [('networkCoInvestigator', M+'grantCollection.py')])

p('C30', 'The journal abbreviation database remembers exactly what was stored',
  'For any history of adding and excluding abbreviations, names and updates, the journal abbreviation lookup of a new session returns for each abbreviation exactly the full names stored for it and not excluded since, manual ones first, and the manual additions survive reopening and updating the database. Adding is idempotent, excluding affects only the named abbreviation, and neither affects other abbreviations. Citations resolve full journal names with exactly those names.',
  ['histories', 'inputs'], 'every history of additions, exclusions and reopenings',
  'no reliable test exercises the manual database at all',
  [M+'journalAbbreviations/backend.py', M+'citation.py'], [('addToDB, excludeFromDB, getj9dict', M+'journalAbbreviations/backend.py')])

p('C31', 'Analyses never modify what they analyse',
  "Building any network, series, table, export, statistic or diffusion result leaves the collection, its records, their decoded values and the caller's argument lists exactly as they were, so repeating any analysis in any order gives the same result. The progress display setting never changes a result. Changing a returned graph, collection, list or table never changes the collection, its records or a later result (the decoded values of a record themselves are shared).",
  ['histories', 'configurations'], 'every sequence of analyses over a collection and both display settings',
  'each test builds one thing from a fresh collection; interference shows only in sequences',
  [M+'recordCollection.py', M+'mkCollection.py', M+'diffusion.py', M+'mkRecord.py', M+'progressBar.py'],
  [('network, series and export methods', M+'recordCollection.py, '+M+'mkCollection.py')],
  [('collection and record state', 'records, decoded values, argument lists', M+'mkRecord.py')])

p('C32', 'Author gender counts follow the name table exactly',
  "For every record, authGenders assigns each different author name the gender the name table gives for the first given name of the author, Unknown otherwise, and counts and fractions are those of that assignment. A collection's genderStats are the sums over its records, or their fractions of the total. Author order, repeated names and initials do not disturb the result.",
  ['inputs', 'configurations'], 'every list of author names and name table',
  'the reliable tests need the downloaded table; counting and name splitting are not sampled',
  [M+'genders/nameGender.py', M+'mkRecord.py', M+'recordCollection.py'], [('nameStringGender, recordGenders', M+'genders/nameGender.py'), ('genderStats', M+'recordCollection.py')])

p('C33', 'A command line session does what its menus and questions say',
  "For every sequence of answers, the command line program reads exactly the files named (asking again for names that do not exist), offers the collection and the network announced by its counts, and writes exactly the files asked for under the names asked for: the collection as WOS file or table, all citations or those to journals (each once), or the chosen network of the chosen tags after the chosen filters, as edge list, node list or GraphML. "
  "An existing file is replaced only after a yes or under the name given at the start. An answer that is not offered is asked for again and changes nothing, the console option shows the collection and network and comes back to its menu, quitting or interrupting ends the session without anything further being written.",
  ['histories', 'inputs'], 'every session: arguments, existing files, sequence of answers',
  'tests patch the helper functions or feed one fixed sequence; menus, retries, name clashes and combinations of filters are not sampled',
  [M+'bin/metaknowledgeCLI.py', M+'graphHelpers.py'], [('mkCLI, inputMenu, getOutputName, getThresholds, outputNetwork', M+'bin/metaknowledgeCLI.py')])

p('C34', 'A glimpse shows the most frequent values and fits the terminal',
  "For every collection, tags and terminal size, glimpse gives for each tag (the authors, journals and citations when none is given) its most frequent values in order of their number of occurrences, each with its rank: values that occur equally often share a rank and ranks have no gaps. "
  "The compact table is exactly as wide as the terminal and as tall, a value too long for its column is cut, and missing values are shown as such. The plain list never exceeds the width. The heading gives the number of records and the name of the collection.",
  ['inputs', 'configurations'], 'every collection, choice of tags and size of the terminal',
  'tests look for a few substrings at one size',
  [M+'RCglimpse.py', M+'mkCollection.py'], [('makeTable, prepEntry', M+'RCglimpse.py'), ('rankedSeries', M+'mkCollection.py')])

if __name__ == '__main__':
    for d in P:
        print(json.dumps(d))
