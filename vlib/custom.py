"""User-defined modules, as the documentation invites users to write them: every combination of fixed, flexible and
controllable with source, sink and both. Each has a rating per direction, a cost per unit and one state variable (the
energy it has moved so far, which also reduces what is left of an optional budget)."""
import numpy as np

_CACHE = {}
ROLES = [(g, d) for g in ('fixed', 'flex', 'controllable') for d in ('source', 'sink', 'both') if (g, d) != ('fixed', 'both')]


def class_of(role, direction):
    """The class of user-defined modules of a role and direction (made once per process)."""
    if (role, direction) in _CACHE:
        return _CACHE[role, direction]
    import yaml
    from pymgrid.modules.base import BaseMicrogridModule

    source, sink = direction in ('source', 'both'), direction in ('sink', 'both')
    name = f'User{role.capitalize()}{direction.capitalize()}'

    def __init__(self, produce, consume, cost, budget, initial_step=0, raise_errors=False, floor=0.0):
        self.floor = floor
        self.produce, self.consume, self.cost, self.budget = produce, consume, cost, budget
        self._moved = 0.0
        BaseMicrogridModule.__init__(self, raise_errors, initial_step=initial_step,
                                     provided_energy_name='given' if source else None,
                                     absorbed_energy_name='taken' if sink else None)

    def update(self, external_energy_change, as_source=False, as_sink=False):
        assert as_source + as_sink == 1
        e = external_energy_change
        if role == 'fixed':
            assert e is None
            e = self.max_production if as_source else self.max_consumption
        self._moved += e
        info = {'provided_energy' if as_source else 'absorbed_energy': e, 'left': self.budget - self._moved}
        return -self.cost * e, False, info

    def left(self):
        return max(0.0, self.budget - self._moved)

    def reset(self):
        self._moved = 0.0
        return BaseMicrogridModule.reset(self)

    def moved_setter(self, value):
        self._moved = value

    ns = {
        '__init__': __init__, 'update': update, 'reset': reset,
        'module_type': (f'{role}_{direction}', role),
        'yaml_tag': f'!{name}', 'yaml_dumper': yaml.SafeDumper, 'yaml_loader': yaml.SafeLoader,
        '_state_dict': lambda self: {'moved': self._moved},
        'moved': property(lambda self: self._moved, moved_setter),
        'min_obs': property(lambda self: np.array([0.0])),
        'max_obs': property(lambda self: np.array([self.budget])),
        'min_act': property(lambda self: -self.consume if sink else 0.0),
        'max_act': property(lambda self: self.produce if source else 0.0),
        'is_source': property(lambda self: source),
        'is_sink': property(lambda self: sink),
        'production_marginal_cost': property(lambda self: self.cost),
    }
    if source:
        ns['max_production'] = property(lambda self: min(self.produce, left(self)))
        ns['min_production'] = property(lambda self: min(self.floor, self.max_production))
    if sink:
        ns['max_consumption'] = property(lambda self: min(self.consume, left(self)))
    cls = type(BaseMicrogridModule)(name, (BaseMicrogridModule,), ns)
    _CACHE[role, direction] = cls
    return cls


def build(m, init=0):
    return class_of(m['role'], m['dir'])(m['produce'], m['consume'], m['cost'], m['budget'], init, m['raise_errors'],
                                         m.get('floor', 0.0))


def limits(m, moved):
    """(max production, max consumption) of a user-defined module that has moved an amount."""
    left = max(0.0, m['budget'] - moved)
    return (min(m['produce'], left) if m['dir'] in ('source', 'both') else 0.0,
            min(m['consume'], left) if m['dir'] in ('sink', 'both') else 0.0)


def clip(m, e, up, down):
    """What a controllable module that is asked for e moves, given its limits."""
    return max(min(e, up), min(m.get('floor', 0.0), up)) if e >= 0 else -min(-e, down)


def refuses(m, e, up, down):
    return m['raise_errors'] and (e > up or -e > down or 0 <= e < min(m.get('floor', 0.0), up))
