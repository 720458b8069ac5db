"""Entry point: run.py <property> ; environment VERIF_TIER, VERIF_SEED."""
import importlib, json, os, sys, traceback
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = core.Ctx(prop, tier, seed)
    try:
        core.rebuild()
        import geoana
        assert geoana.__file__.startswith('/repo/'), geoana.__file__
        mod = importlib.import_module('p_' + prop.lower())
        verdict = mod.run(ctx)
        rc = core.finish(ctx, verdict, mod.LEVEL, mod.RULE, getattr(mod, 'ASSUMPTIONS', ()))
    except core.MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        rc = 3
    except Exception as ex:
        traceback.print_exc()
        rc = 3
        # an error raised inside the library where the specification expects a result
        if any(f.filename.startswith('/repo/geoana/') for f in traceback.extract_tb(ex.__traceback__)):
            rdir = core.VERIF / 'work' / 'replay'
            rdir.mkdir(parents=True, exist_ok=True)
            path = rdir / ('%s-%s-%d.json' % (prop, tier, seed))
            path.write_text(json.dumps(dict(property=prop, seed=seed, tier=tier, error=traceback.format_exc()), indent=1))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
    finally:
        import shutil
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.exit(rc)


main()
