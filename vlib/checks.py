"""The check of every property."""
from . import behaviour, compilers, consts, decls, docs, features, flags, fuzz, hygiene, layout, machines, passthru, places, robust, surface

CHECKS = {}
for p in behaviour.PLAN:
    CHECKS[p] = behaviour.run
CHECKS['C11'] = flags.run
CHECKS['C13'] = decls.run13


def defaults(r):
    behaviour.run(r)
    if not r.violations:
        decls.run21(r)


CHECKS['C21'] = defaults
CHECKS['C22'] = fuzz.run
CHECKS['C14'] = surface.run14
CHECKS['C15'] = features.run
CHECKS['C19'] = consts.run
CHECKS['C17'] = passthru.run
CHECKS['C16'] = robust.run
CHECKS['C23'] = hygiene.run23
CHECKS['C24'] = hygiene.run24
CHECKS['C26'] = layout.run
CHECKS['C27'] = places.run
CHECKS['C28'] = docs.run
CHECKS['C29'] = machines.run
CHECKS['C30'] = compilers.run
