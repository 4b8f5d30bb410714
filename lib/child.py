"""Another process: plays the operations it is sent, answers the events.
Every request is played in a fork of its own, so that it starts from nothing."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rec as R


def play(rec, q):
    rec.reset()
    rec.ids = dict((a, b) for a, b in q['ids'])
    rec.n = q['n']
    out = []
    for op in q['ops']:
        try:
            out.append(getattr(rec, op[0])(*op[1:]))
        except R.Enough:
            break
        except Exception as e:
            out.append(dict(op='broken', exc='%s: %s' % (type(e).__name__, e)))
            break
    sys.stdout.write(json.dumps(out) + '\n')
    sys.stdout.flush()


def main():
    rec = R.Rec(None, R.Code())
    for line in iter(sys.stdin.readline, ''):
        pid = os.fork()
        if not pid:
            try:
                play(rec, json.loads(line))
            finally:
                os._exit(0)
        if os.waitpid(pid, 0)[1]:
            sys.stdout.write('[{"op": "broken", "exc": "other process died"}]\n')
            sys.stdout.flush()


main()
