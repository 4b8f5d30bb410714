"""What each property's check explores (no code under test is imported)."""

BUDGET = {'quick': 240, 'thorough': 3000}


PLAN = {}


def add(prop, rule, quick, thorough, chunk=400):
    PLAN[prop] = dict(rule=rule, sessions=(quick, thorough), chunk=chunk, behaviours=None)


SETS = 'sets of URLs near the clustering thresholds, and every subset of small universes; seeded'
add('C01', 'URL and pattern texts: generated sites, edits of them, all short words over the reserved characters', 500, 40000)
add('C02', 'component texts: all pairs of legal characters, all short words, generated sites', 500, 40000)
add('C03', 'good and bad URLs mixed in one maker, all short words, all characters in all places', 400, 40000)
add('C04', 'URLs and patterns that differ a little in structure or character spaces', 500, 40000)
for c in ('C05', 'C06', 'C07', 'C08', 'C16'):
    add(c, SETS, 600, 60000)
add('C09', 'one set of URLs loaded in several orders, with repetitions and other hosts', 400, 40000)
add('C10', 'histories of loading, making, giving up, combining in several makers', 400, 40000)
add('C11', 'clusters made, loaded into a matcher, and asked for every member', 500, 40000)
add('C12', 'families of patterns and URLs, edited patterns, all patterns of small components', 500, 40000)
add('C13', 'families of patterns and URLs, all patterns of small components', 400, 40000)
add('C14', 'families of patterns in several orders of loading', 300, 30000)
add('C15', 'edited and random pattern texts, all short words over the signs of the language', 400, 40000)
add('C17', 'pattern-make over generated inputs in all formats', 250, 12000, chunk=250)
add('C18', 'pattern-match over generated patterns and inputs', 350, 12000, chunk=350)
add('C19', 'combined trees of generated sets', 400, 40000)
add('C20', 'sharded against whole, generated sets and patterns', 300, 30000)
add('C21', 'metas shared, repeated and missing over generated sets and patterns', 300, 30000)
add('C22', 'sets alone and among their neighbours', 400, 40000)
add('C23', 'pattern-make piped into pattern-match over generated inputs', 200, 12000, chunk=200)
add('C24', 'every cluster of generated sets, and of every subset of small universes, made again alone', 300, 30000)
add('C25', 'all formats of the clusters of generated sets', 400, 40000)
add('C26', 'two or three threads, schedules chosen at every line or instruction', 60, 6000, chunk=60)
add('C27', 'both commands at every log level over generated inputs', 120, 12000, chunk=120)

for c in ('C03', 'C05', 'C06', 'C08', 'C10', 'C12', 'C13', 'C16', 'C21', 'C22'):
    PLAN[c]['behaviours'] = dict(quick=(48, 24), thorough=(800, 40))
