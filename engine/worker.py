"""One symbolic run: worker.py '{"ll":..., "harness":..., "case":n|null, "tier":0|1, ...}' -> JSON on stdout."""
import json, os, sys, time, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import symex
from intrinsics import NeedCases


def main():
    job = json.loads(sys.argv[1])
    t0 = time.time()
    out = {'harness': job['harness'], 'case': job.get('case')}
    ex = None
    try:
        for real_fmt in (False, True):
            ex = symex.Executor(job['ll'], query_timeout_ms=job.get('query_ms', 60000), max_blocks=job.get('max_blocks', 3_000_000),
                                deadline=(t0 + job['budget']) if job.get('budget') else None, stop_after=job.get('stop_after', 1))
            ex.case = job.get('case'); ex.tier = job.get('tier', 0); ex.real_fmt = real_fmt
            ex.keep_samples = job.get('samples', 0)
            ex.rng = random.Random('%s/%s/%s' % (job.get('seed', 1), job['harness'], job.get('case')))
            out['real_fmt'] = real_fmt
            try:
                out['status'] = ex.run(job['harness'])
                break
            except (symex.Inconclusive, NeedCases, RecursionError): raise
            except Exception as e:  # text that was left out is looked at (see symex.Unformatted)
                if real_fmt or not (ex.text_skipped or isinstance(e, symex.NeedText)): raise
    except NeedCases as e:
        out['status'] = 'cases'; out['n'] = e.args[0]
    except symex.Unsupported as e:
        out['status'] = 'unsupported'; out['why'] = str(e)[:600]
    except symex.Inconclusive as e:
        out['status'] = 'inconclusive'; out['why'] = str(e)[:600]
    except RecursionError:
        out['status'] = 'unsupported'; out['why'] = 'recursion too deep'
    if ex is not None:
        out.update(paths=ex.paths, ends=ex.ends, queries=ex.queries, unsat=ex.unsat, solver_s=round(ex.solver_time, 3),
                   blocks=ex.total_blocks, covers=ex.covers, checks=ex.checks, functions=sorted(ex.visited),
                   stubs=sorted(ex.stubs_used), forks=sorted(ex.fork_sites.items(), key=lambda x: -x[1])[:6],
                   violations=[dict(kind=v.kind, msg=v.msg, loc=v.loc, inputs=[x[2] for x in v.inputs], where=v.where) for v in ex.violations],
                   samples=[dict(inputs=[x[2] for x in s[0]], emits=s[2]) for s in ex.samples])
    out['wall_s'] = round(time.time() - t0, 3)
    json.dump(out, sys.stdout)


main()
