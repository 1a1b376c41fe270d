"""Sequential model of the configuration and of what constructors take from it, and a linearizability checker.

State: dictionary of the eleven options.  Operations (JSON):
  ['set', option, value] ['get', option] ['dump'] ['mgr'] ['replace', {...}] ['init']
  ['new', form, {overrides}]  objects built during the call -> list of settings, or a rejection
  ['parse', {args}, names|None] -> [values, left over], or a rejection
Observed results: ['ok', value] or ['rej', type, text]
"""
TOL = ('abs_tol', 'rel_tol', 'reg_tol')
NUM = ('n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points')
BOOL = ('is_verbose', 'is_ode_norm_control', 'is_enabled_ode_solver_options')
ELL = ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']
HYP = ['abs_tol', 'rel_tol']
SETTERS = ['is_verbose', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points', 'abs_tol', 'rel_tol']
ORDER = ['version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'ode_solver_name', 'is_ode_norm_control',
         'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points']


def valid(name, v):
    """only called with values that are clearly valid or clearly invalid"""
    if name in TOL:
        return isinstance(v, float) and v > 0
    if name in NUM:
        return not isinstance(v, bool) and (isinstance(v, int) or isinstance(v, float) and v % 1 == 0)
    if name in BOOL:
        return isinstance(v, bool)
    if name == 'version':
        return isinstance(v, str)
    return v in ('ode45', 'ode23', 'ode113')


def eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, float) != isinstance(b, float) and isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


def needed(op):
    if op[0] == 'new':
        return HYP if op[1].startswith('hyp') else ELL
    return ORDER if op[2] is None else op[2]


class Model(object):
    def __init__(self, defaults):
        self.defaults = defaults

    def expect(self, state, op):
        """['ok', value] or ['rej'] and the next state"""
        k = op[0]
        if k == 'set':
            s = dict(state)
            s[op[1]] = op[2]
            return ['ok', None], s
        if k == 'get':
            return ['ok', state.get(op[1])], state
        if k in ('dump', 'mgr'):
            return ['ok', state], state
        if k == 'replace':
            return ['ok', None], dict(op[1])
        if k == 'init':
            return ['ok', None], dict(self.defaults)
        over = op[2] if k == 'new' else op[1]
        names = needed(op)
        vals = []
        for n in names:
            if n not in self.defaults:
                return ['rej'], state
            v = over[n] if n in over else state[n]
            if not valid(n, v):
                return ['rej'], state
            vals.append(v)
        if k == 'new':
            return ['ok', vals], state
        return ['ok', [vals, {a: b for a, b in over.items() if a not in names}]], state

    def agrees(self, state, op, got):
        exp, nxt = self.expect(state, op)
        if exp[0] == 'rej':
            ok = got[0] == 'rej' and got[1] == 'ValueError' and ':wrongInput' in got[2]
        else:
            ok = got[0] == 'ok' and eq(got[1], exp[1])
        return ok, nxt


def freeze(s):
    return tuple(sorted((k, repr(v)) for k, v in s.items()))


def linearizable(model, start, history, limit=400000):
    """history: list of (thread, invoke, return, op, got).  Returns None when explained, else a description.
    Wing & Gong's search with memoised (done set, state)."""
    n = len(history)
    hist = sorted(history, key=lambda h: h[1])
    seen = set()
    best = [0, None]
    full = (1 << n) - 1
    stack = [(0, start)]
    count = 0
    while stack:
        done, state = stack.pop()
        if done == full:
            return None
        key = (done, freeze(state))
        if key in seen:
            continue
        seen.add(key)
        count += 1
        if count > limit:
            return 'undecided'
        # an operation can come next if no other pending operation returned before it was invoked
        first_ret = min(hist[i][2] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or hist[i][1] > first_ret:
                continue
            ok, nxt = model.agrees(state, hist[i][3], hist[i][4])
            if ok:
                stack.append((done | 1 << i, nxt))
            else:
                c = bin(done).count('1')
                if c >= best[0]:
                    best[0], best[1] = c, (hist[i], state)
    h, state = best[1]
    return ('no sequential order explains the history; after %d of %d calls, %r in thread %d gave %r while the '
            'configuration was %r' % (best[0], n, h[3], h[0], h[4], state))
