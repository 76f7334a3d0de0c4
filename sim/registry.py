import core
import control
import misc
import logs
import extra
import longrun
import schemes
import outside
import anywhere

PROPS = {}
for _m in (core, control, misc, logs, extra, longrun, schemes, outside, anywhere):
    for _n in sorted(vars(_m)):
        _c = getattr(_m, _n)
        if isinstance(_c, type) and issubclass(_c, core.Prop) and _c.id:
            PROPS[_c.id] = _c()
