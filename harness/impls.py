"""The compiled and the reference implementation of the kernels."""
import importlib, importlib.util, sys


def reference(module, blocked):
    """Load a second copy of a kernel module as it is where the compiled extension is not available."""
    src = importlib.util.find_spec(module).origin
    name = module + '__reference'
    spec = importlib.util.spec_from_file_location(name, src)
    mod = importlib.util.module_from_spec(spec)
    saved = {b: sys.modules.get(b) for b in blocked}
    try:
        for b in blocked:
            sys.modules[b] = None
        spec.loader.exec_module(mod)
    finally:
        for b, v in saved.items():
            if v is None:
                sys.modules.pop(b, None)
            else:
                sys.modules[b] = v
    return mod


def rte():
    import geoana.kernels as k
    return dict(compiled=k, reference=reference('geoana.kernels.tranverse_electric_reflections', ['geoana.kernels._extensions.rTE']))


def prism():
    import geoana.kernels as k
    return dict(compiled=k, reference=reference('geoana.kernels.potential_field_prism',
                                                ['geoana.kernels._extensions.potential_field_prism']))
