"""Pristine interpreter that executes runs on request; used to vary the hash seed."""
import sys, json

def main():
    from . import seam
    seam.patch()
    seam.answer_all('1')
    seam.load()
    from . import runner
    for line in sys.stdin:
        d = json.loads(line)
        try: out = {'ok': runner.run_world(d['scn'], ambient=d['ambient'])}
        except Exception as ex:
            import traceback
            out = {'error': traceback.format_exc()}
        sys.stdout.write(json.dumps(out) + '\n'); sys.stdout.flush()

if __name__ == '__main__': main()
