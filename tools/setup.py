"""setup_cmd: nothing to install; verifies that the tools the checks need work
here and that the driver builds against /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
c = vlib.Ctx('setup', 'quick')
c.build()
c.build(True)
c.build("clock")
r = c.tlc('Health', workers=2)
print('driver builds; TLC works (%d states of Health)' % r['distinct'])
