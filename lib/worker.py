"""One worker: plays sessions, writes the trace."""
import json
import os
import random
import resource
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rec as R
import scen


def main():
    prop, tier, seed, part, parts, path, start, count, enum = sys.argv[1:10]
    behave = sys.argv[10] if len(sys.argv) > 10 else ''
    part, parts, start, count = int(part), int(parts), int(start), int(count)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    code = R.Code()
    rec = None
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        with open(path, 'w') as out:
            rec = R.Rec(out, code)
            rec.scratch = scratch
            rec.prop = prop
            try:
                fn, en = scen.PLAN[prop][:2]
                if enum == '1' and en is not None:
                    en(rec, part, parts, tier)
                if behave:
                    scen.replay(rec, behave, part, parts)
                if enum == '1' and prop != 'C26':
                    scen.gen.BIG = part % 8
                    rec.label = 'large/%d' % part
                    fn(rec, random.Random('%s/large/%d' % (prop, part)))
                    scen.gen.BIG = None
                for i in range(start, start + count):
                    rec.label = '%d/%d' % (part, i)
                    rng = random.Random('%s/%s/%d/%d' % (prop, seed, part, i))
                    try:
                        fn(rec, rng)
                    except (TypeError, AttributeError, KeyError, IndexError, RecursionError, MemoryError) as e:
                        if os.environ.get('VERIF_DEBUG'):
                            raise
                        rec.emit(op='broken', exc='%s: %s' % (type(e).__name__, e))
            except R.Enough:
                pass
        print(json.dumps(dict(sessions=rec.sessions, events=rec.events, counts=rec.counts)))
    finally:
        if rec is not None:
            rec.close()
        shutil.rmtree(scratch, ignore_errors=True)


main()
