import json
S='src/os_urlpattern/'
P=[]
def add(id,title,st,over,q,why,files,mech,obs,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech],
                   state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],observe_at=obs,hook_needed=None)))
add('C01','URL structure: path levels, ordered query keys, fragment presence, values',
 "Parsing a regular URL gives its structure (number of path levels with repeated slashes counted once and a trailing slash as an empty last level, the query keys in order with their '=' sign, whether there is a fragment) and the component texts in order: path levels, then query values, then the fragment. Scheme, host and ';params' have no influence. A URL pattern is parsed by the same rules, with '[\\?]' as the sign that starts the query.",
 ['inputs'],'every URL text and every URL pattern text of the accepted syntax',
 'Tests parse a few dozen fixed URLs; empty values, keys without "=", "?" or "/" inside values and fragments, params, repeated slashes and schemes combine without end.',
 ['parser.py','parse_utils.py','compat.py'],[('parse','parser.py'),('parse_url, analyze_url, filter_useless, parse_query_string, unpack, parse_url_pattern_string','parse_utils.py'),('URLMeta','parse_utils.py')],
 ['os_urlpattern.parser.parse'])
add('C02','Character-space splitting of every component is exact and lossless',
 "Every component text is split into maximal runs of one character space each (a-z, A-Z, 0-9, or one symbol), in order and without loss. The reported character spaces are exactly those occurring in the text, the length is the number of characters, and the pattern form keeps letters and digits and brackets, escapes and counts symbol runs.",
 ['inputs'],'every component text over the legal characters',
 'Tests split a handful of words; every legal character, run length and adjacency (escaped symbols, backslash, brackets, long runs) is needed.',
 ['parser.py','definition.py','parse_utils.py'],[('PieceParser, ParsedPiece, normalize','parse_utils.py'),('character space tables','definition.py')],
 ['os_urlpattern.parser.parse'])
add('C03','Irregular URLs are refused with the documented errors and leave no trace',
 "A URL without a path, with a malformed query item, or with a character outside the legal set in its path, query or fragment is refused with the irregular-URL or invalid-character error, and no regular URL is refused. A refused URL changes nothing: the clusters made and the matches answered afterwards are those of the accepted input alone.",
 ['inputs','histories'],'every text, at every point of a history of loads',
 'Tests try single bad URLs; which characters and shapes are refused, and that a refusal half-way through loading leaves nothing behind, needs all texts and histories.',
 ['parse_utils.py','parser.py','pattern_maker.py','exceptions.py'],[('analyze_url, parse_query_string checks','parse_utils.py'),('PieceParser._define invalid character check','parse_utils.py'),('PatternMaker.load parses before it builds','pattern_maker.py')],
 ['PatternMaker.load','parse','PatternMatcher.match'])
add('C04','Equal fuzzy digest exactly for similar URLs and patterns, in every process',
 "Two URLs have the same fuzzy digest exactly when they have the same URL structure and, component by component, the same set of character spaces. A URL pattern has the digest of the URLs it can match. The digest is the same hexadecimal text whichever way it is asked for and in every process.",
 ['inputs','configurations'],'every pair of URLs and URL patterns; every process (hash seed)',
 'Tests compare a few digests in one process; collisions and splits need pairs that differ in one detail, and stability needs other hash seeds.',
 ['parser.py','parse_utils.py'],[('fuzzy_digest','parser.py'),('fuzzy_digest, digest, URLMeta','parse_utils.py')],['os_urlpattern.parser.fuzzy_digest'])
add('C05','Clusters partition the distinct URLs loaded, with exact counts',
 "The clusters made contain every loaded regular URL exactly once: no URL is lost, invented or in two clusters. Each cluster is not empty and reports as its count the number of distinct URLs in it (URLs that differ only in scheme, host, params or repeated slashes are one). Inside the tree of a cluster every node counts the distinct URLs below it. Loading reports a URL as new exactly the first time it is seen.",
 ['inputs','histories','configurations'],'every multiset of URLs, every order, every threshold of at least 2',
 'Tests check a few fixed files; the multi-stage clustering moves URLs between stages depending on counts, thresholds and shapes.',
 ['pattern_maker.py','pattern_cluster.py','piece_pattern_node.py','utils.py'],[('Maker.make','pattern_maker.py'),('cluster, process, split_by_pattern and the PatternCluster stages','pattern_cluster.py'),('build_from_parsed_pieces, incr_count','piece_pattern_node.py')],
 ['PatternMaker.load','PatternMaker.make','root.count'])
add('C06','Every member of a cluster matches the pattern of the cluster as a regex',
 "The pattern of a cluster is a well-formed URL pattern, and every URL of the cluster (its path, query and fragment) is matched in full by the pattern read as an ordinary regular expression.",
 ['inputs','configurations'],'every set of URLs, every threshold of at least 2',
 'Tests compare pattern texts for fixed inputs; that the generalised text still covers all members depends on every merge decision.',
 ['pattern_cluster.py','pattern.py','formatter.py','parser.py','parsed_piece_view.py'],[('pattern texts of views and stages','pattern_cluster.py'),('Pattern','pattern.py'),('PatternFormatter','formatter.py')],
 ['pformat("pattern", ...)'])
add('C07','Generalised only from at least min_cluster_num URLs; else the literal URL',
 "A cluster whose pattern is generalised (it has a character class with '+' or a count over letters, digits or several spaces) has at least min_cluster_num distinct URLs. Every other cluster is one single URL, and its pattern is the literal text of that URL.",
 ['inputs','configurations'],'every set of URLs, every threshold of at least 2',
 'Tests use the default threshold and few sets; the bound must survive every stage and every threshold.',
 ['pattern_cluster.py','pattern_maker.py','config/__init__.py'],[('min_cluster_num tests of the stages','pattern_cluster.py'),('cluster, _can_be_splited','pattern_cluster.py')],
 ['PatternMaker.make'])
add('C08','No two clusters have the same pattern',
 "The clusters answered by one make have pairwise different pattern texts.",
 ['inputs','histories','configurations'],'every set of URLs, every threshold of at least 2, every history',
 'Tests count patterns of fixed files; two branches may generalise to one text only on particular inputs.',
 ['pattern_maker.py','pattern_cluster.py','utils.py'],[('split_by_pattern','pattern_cluster.py')],['pformat("pattern", ...)'])
add('C09','Clusters do not depend on order, duplicates, hosts or the process',
 "The clusters (members, patterns, counts) are a function of the set of distinct URLs and the threshold: any loading order, any repetition, any scheme, host or params, and any process give the same clusters.",
 ['inputs','histories','configurations'],'all permutations and repetitions of every URL set; every process (hash seed)',
 'Tests load in one order in one process.',
 ['pattern_cluster.py','pattern_maker.py','piece_pattern_node.py'],[('clustering over sets and counters','pattern_cluster.py'),('build_from_parsed_pieces','piece_pattern_node.py')],['PatternMaker.make'])
add('C10','Making can be repeated, abandoned, interleaved and continued',
 "Whatever happened before (earlier makes, iterations given up half-way, two iterations at once, combined trees, loads after a make, refused URLs, other makers with the same or other settings), make answers exactly the clusters a fresh maker answers for the URLs loaded so far.",
 ['histories','schedules','configurations'],'every history of calls on several makers in one process',
 'Tests make once per maker.',
 ['pattern_maker.py','pattern_cluster.py','piece_pattern_node.py','utils.py'],[('Maker._cluster, Maker.make','pattern_maker.py'),('set_pattern, build_from_piece_pattern_nodes (new trees share pieces and patterns)','piece_pattern_node.py'),('cluster, split_by_pattern','pattern_cluster.py')],
 ['PatternMaker.make','Maker.make'])
add('C11','Made patterns load into a matcher and match their own members',
 "Every pattern made can be loaded into a matcher, and when all the patterns of one make are loaded, matching any of the clustered URLs answers, among others, the pattern of its own cluster.",
 ['inputs','configurations'],'every set of URLs, every threshold of at least 2',
 'Tests round-trip a few fixed sets; reader and writer of patterns are separate code and must agree on every kind of pattern.',
 ['pattern_matcher.py','parser.py','pattern_cluster.py','parsed_piece_view.py','formatter.py'],[('MatchPattern, view matchers','pattern_matcher.py'),('parse_pattern_string, parse_pattern_unit_string','parse_utils.py')],
 ['PatternMatcher.load','PatternMatcher.match'])
add('C12','Matching is sound and strict',
 "A pattern answered for a URL was loaded, has the structure of the URL, matches it in full as a regular expression, and names in every component exactly the character spaces that occur there. Irregular URLs match nothing.",
 ['inputs','histories'],'every set of patterns, every URL, loads and matches in any order',
 'Tests match a few pairs; soundness is about all patterns against all URLs.',
 ['pattern_matcher.py','parser.py','parsed_piece_view.py'],[('PatternMatcher.match by digest','pattern_matcher.py'),('PatternMatchNode.match and the view matchers','pattern_matcher.py')],['PatternMatcher.match'])
add('C13','Matching is complete: every loaded pattern that strictly fits is answered',
 "For patterns in the spelling the package writes, a match answers exactly the loaded patterns that strictly fit the URL, each once, no matter how many others were loaded, in which order, or what was matched before.",
 ['inputs','histories'],'every set of patterns in canonical spelling, every URL, every order of loads and matches',
 'Tests match single pairs; a missed pattern needs particular neighbours, views or orders.',
 ['pattern_matcher.py','parsed_piece_view.py','parser.py'],[('PatternMatchNode.match, _deep_match, view matchers','pattern_matcher.py'),('views','parsed_piece_view.py')],['PatternMatcher.match'])
add('C14','Ranking of matches: more literal first, decided by the last difference',
 "Sorting the matches of a URL in descending order puts the more specific pattern first: the last component in which two patterns differ decides, literal before run by run, mixed, prefix-and-extension, fixed length and any length. The order is the same for the same answers however they were loaded.",
 ['inputs','histories'],'every set of patterns in canonical spelling and every URL',
 'Tests rank a few pairs; a total preorder over all kinds and positions cannot be sampled.',
 ['pattern_matcher.py','pattern.py'],[('MatchPattern.__lt__, cmp_key, PatternMatchNode.__lt__','pattern_matcher.py')],['sorted(PatternMatcher.match(url), reverse=True)'])
add('C15','The pattern language: exactly the well-formed patterns are accepted',
 "A text is accepted as a URL pattern exactly when it starts with '/' and every component is a sequence of letters and digits and of bracketed classes of known character spaces (one space without count, or '+', or a count of at least the number of spaces). Everything else is refused with an error and changes nothing in the matcher.",
 ['inputs','histories'],'every text, at every point of a history of loads',
 'Tests refuse a few texts; brackets, escapes, counts and their adjacency make an infinite language.',
 ['parse_utils.py','parser.py','pattern_matcher.py'],[('analyze_url_pattern_string, parse_pattern_string, parse_pattern_unit_string','parse_utils.py'),('PatternMatcher.load','pattern_matcher.py')],['PatternMatcher.load','parse'])
add('C16','The clusters are those of the clustering rules',
 "For every URL set and threshold, members and patterns of the clusters are exactly those of the clustering rules: level by level, pieces are grouped in the views base, mixed, last-dot and length, a group becomes a pattern when it has enough URLs or its pieces are confusingly many, and branches are clustered again until each is one pattern.",
 ['inputs','configurations'],'every set of URLs, every threshold of at least 2',
 'Tests compare pattern texts of a few fixed sets; each rule has thresholds and boundary cases that only particular counts reach.',
 ['pattern_cluster.py','pattern_maker.py','parsed_piece_view.py'],[('BasePatternCluster, MixedPatternCluster, LastDotSplitFuzzyPatternCluster, LengthPatternCluster, FuzzyPatternCluster','pattern_cluster.py'),('confused, seek_cluster','pattern_cluster.py'),('views','parsed_piece_view.py')],
 ['PatternMaker.make'])
add('C17','pattern-make prints the clusters of its input in every format',
 "pattern-make over its input lines (from standard input or files, blank, undecodable or irregular lines skipped, surrounding white space ignored) exits 0 and prints exactly what the programming interface answers for those URLs and settings: in cluster format every pattern followed by its indented URLs, inline one pattern-URL pair per line, pattern one pattern per line, JSON one object per pattern with its count, tree the combined trees, null nothing.",
 ['inputs','configurations'],'every input, format, log level, config file and way of giving the input',
 'Tests run the command on one or two inputs in few formats.',
 ['cmdline.py','formatter.py','config/__init__.py'],[('MakePatternCommand','cmdline.py'),('formatters','formatter.py'),('get_default_config','config/__init__.py')],['pattern-make'])
add('C18','pattern-match answers every input line, in order, with its matches',
 "pattern-match prints exactly one line per input line, in input order, ending with the input line: the best match, or all matches with --all-matched, 'N' when nothing matches and 'E' when the line is not a regular URL. Malformed lines of the pattern files are skipped, it exits 0, and the matches are those the programming interface answers.",
 ['inputs','configurations'],'every set of pattern files and inputs, with and without --all-matched',
 'Tests run the command on one or two inputs.',
 ['cmdline.py','pattern_matcher.py'],[('MatchPatternCommand','cmdline.py')],['pattern-match'])
add('C19','Combined pattern trees agree with the clusters',
 "Making combined trees gives one tree per group of similar URLs whose leaves are exactly the clusters (same patterns, same counts), whose inner nodes count the URLs below them, in which no branch occurs twice, and whose rendering labels every node with its query key or fragment sign, its pattern and its count.",
 ['inputs','configurations'],'every set of URLs, every threshold of at least 2',
 'Tests render one or two trees without looking at the counts.',
 ['pattern_maker.py','piece_pattern_node.py','formatter.py','utils.py'],[('make(combine=True)','pattern_maker.py'),('ETEFormatter','formatter.py')],['PatternMaker.make(combine=True)','pformat("ete", ...)'])
add('C20','Sharding by fuzzy digest gives the whole answer',
 "Distributing URLs over low-level makers and patterns over low-level matchers by their fuzzy digest, and matching each URL in the matcher of its digest only, gives the same clusters and the same matches as the all-in-one maker and matcher.",
 ['inputs','histories'],'every set of URLs and patterns, any order in each shard',
 'Tests do not compare the two interfaces.',
 ['pattern_maker.py','pattern_matcher.py','parser.py'],[('Maker','pattern_maker.py'),('Matcher','pattern_matcher.py'),('fuzzy_digest','parser.py')],['Maker','Matcher','fuzzy_digest'])
add('C21','Metadata stays bound to the URL or pattern it was loaded with',
 "Every distinct metadata loaded with a URL is found exactly once at that URL's leaf in the clusters, in the cluster of that URL and in no other, for all its repetitions and without metadata of other URLs; the path to that leaf spells the URL. Metadata, or the lack of it, makes no difference to the clusters, their patterns and counts. A match carries the metadata last loaded with that very pattern, and loading a pattern reports whether it is new.",
 ['inputs','histories'],'every history of loads of URLs and patterns with repeated, shared and missing metadata',
 'Tests bind one metadata to one URL.',
 ['pattern_maker.py','piece_pattern_node.py','pattern_matcher.py','utils.py'],[('add_meta, update_meta','piece_pattern_node.py'),('build_tree','utils.py')],['leaf meta','matched node meta'])
add('C22','URLs that are not similar never influence each other',
 "URLs of different structure or character spaces are never in one cluster, and the clusters of a group of similar URLs are the same whether the group is loaded alone or together with any other URLs.",
 ['inputs','histories'],'every pair of URL sets',
 'Tests cluster one site at a time.',
 ['pattern_maker.py','parser.py'],[('one maker per fuzzy digest','pattern_maker.py')],['PatternMaker.make'])
add('C23','pattern-make piped into pattern-match: every clustered URL is matched',
 "What pattern-make prints in pattern or cluster format is a pattern file for pattern-match: matching the clustered URLs against it exits 0 and answers every URL, with --all-matched the pattern of its own cluster among others, without it one pattern that was made; never 'N' or 'E'.",
 ['inputs','configurations'],'every input of URLs, every threshold of at least 2, both formats, with and without --all-matched',
 'Tests run the two commands separately on fixed files; that one command writes what the other reads must hold for every pattern text.',
 ['cmdline.py','formatter.py','pattern_matcher.py','pattern_maker.py'],[('MakePatternCommand, MatchPatternCommand','cmdline.py'),('PatternFormatter, ClusterFormatter','formatter.py')],['pattern-make | pattern-match -p'])
add('C24','Clusters are final: a cluster clustered again by itself is itself',
 "Loading exactly the URLs of one made cluster into a fresh maker with the same threshold and making again gives exactly that one cluster: the same members and the same pattern. No cluster made could still be split or would be written differently.",
 ['inputs','configurations'],'every cluster of every set of URLs, every threshold of at least 2',
 'Tests look at one level of clustering of fixed sets; clustering repeats itself on its own parts, and stops too early or too late only on particular sets.',
 ['pattern_cluster.py','pattern_maker.py'],[('cluster, process, split_by_pattern','pattern_cluster.py'),('Maker.make','pattern_maker.py')],['PatternMaker.make'])
add('C25','Every output format of a cluster tells the same members, pattern and count',
 "Formatting a made cluster gives: in pattern format exactly its pattern; in cluster format the pattern and then one tab-indented line per metadata of its URLs; inline one line 'pattern, tab, metadata' per metadata; in JSON one object with exactly the pattern and the number of distinct URLs; in null format nothing. Format names are case-insensitive and formatting changes nothing.",
 ['inputs','histories'],'every cluster of every set of URLs, with repeated and missing metadata',
 'Tests format one or two clusters.',
 ['formatter.py','utils.py','parse_utils.py'],[('PatternFormatter, ClusterFormatter, InlineFormatter, JsonFormatter, Formatter','formatter.py'),('dump_tree','utils.py'),('pack','parse_utils.py')],['pformat(name, url_meta, clustered)'])
add('C26','Threads with their own makers and matchers do not disturb each other',
 "Parsing, digesting, loading and making in different makers, loading and matching in different matchers, and matching in one matcher that is no longer loaded, may run in different threads at once: under every interleaving each call answers what it answers when nothing else runs.",
 ['schedules','inputs','histories'],'every interleaving of the calls of several threads at the granularity of a bytecode instruction',
 'Tests run in one thread; interference needs a switch of threads in the middle of a particular call.',
 ['parser.py','parse_utils.py','pattern_maker.py','pattern_matcher.py','pattern_cluster.py','pattern.py'],[('parse makes a PieceParser per call','parser.py'),('PieceParser is not shared','parse_utils.py'),('makers, matchers hold all state','pattern_maker.py')],['parse','fuzzy_digest','PatternMaker','PatternMatcher'])
add('C27','The log never mixes with the answers, and what it counts is exact',
 "Whatever the log level, pattern-make and pattern-match print the same answers on standard output and exit 0. Without a level nothing goes to standard error; at DEBUG, INFO and WARN there is one warning for each line refused (a URL or pattern that is no URL, no pattern, or no text), and statistics only at DEBUG. There pattern-make tells exactly how many lines it read, how many were empty, valid and invalid, how many distinct URLs it loaded, and one number per cluster: its distinct URLs; pattern-match tells how many pattern lines it read, and how many were valid, invalid and not patterns at all. Progress is told once per 5000 input lines and per 1000 pattern lines.",
 ['inputs','configurations'],'every input and pattern file, including refused lines, every log level',
 'Tests run the commands without a log level; a count can be wrong only for a particular order of repeated, empty and refused lines.',
 ['cmdline.py','utils.py'],[('_load, _process, _match_result, _config_logging','cmdline.py'),('LogSpeedAdapter, pretty_counter','utils.py')],['pattern-make -l','pattern-match -l'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,p['id']
