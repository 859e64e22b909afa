"""Observation points inside worker processes. They only look. The configurations a trial makes and the values it gives them
are taken from the functions known for it; where those no longer exist, from any function that returns the like."""
import sys

from .seams import SIM

TOOL = 3


def _coords(pts):
    import spherely as sph
    return [(sph.get_x(p), sph.get_y(p)) for p in pts]


def _config(r):
    """(points, ...) as a function that sprinkles craters returns it"""
    return isinstance(r, tuple) and len(r) > 1 and isinstance(r[0], (list, tuple)) and len(r[0]) > 0 and type(r[0][0]).__name__ == 'Geography'


def _measured(r):
    return isinstance(r, tuple) and len(r) == 2 and not isinstance(r[0], (list, tuple, dict, str)) and isinstance(r[1], (list, tuple)) \
        and len(r[1]) > 0 and type(r[1][0]).__name__ == 'Geography'


def _entries():
    return SIM.obs.setdefault('trial', [])


def install_worker(spec):
    """spec None: only count the trials valued"""
    coords = _coords if spec else lambda pts: None
    import craterstats as cst
    mod = sys.modules.get('craterstats.Randomnessanalysis')
    prefix = cst.PATH
    made, valued = getattr(mod, 'sprinkle_discs_pp', None), getattr(mod, 'evaluate_randomness', None)
    if made and valued:
        def sprinkle(*a, **k):
            r = made(*a, **k)
            try:
                e = {'pts': coords(r[0])}
                _entries().append(e)
                e.update(n=int(a[1]), diam=float(a[2]))
            except Exception:
                pass
            return r

        def evaluate(*a, **k):
            r = valued(*a, **k)
            try:
                _entries()[-1]['m'] = float(r[0])
                _entries()[-1]['measure'] = a[0].measure
            except Exception:
                pass
            return r
        mod.sprinkle_discs_pp, mod.evaluate_randomness = sprinkle, evaluate
        return
    mon = sys.monitoring
    last = [None]

    def on_return(code, offset, r):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        try:
            if _config(r) and r[0] is not last[0]:
                last[0] = r[0]
                _entries().append({'pts': coords(r[0])})
            elif _measured(r) and _entries():
                _entries()[-1].setdefault('m', float(r[0]))
        except Exception:
            pass
    if not mon.get_tool(TOOL):
        mon.use_tool_id(TOOL, 'observe')
    mon.register_callback(TOOL, mon.events.PY_RETURN, on_return)
    mon.set_events(TOOL, mon.events.PY_RETURN)
