"""xml.dom.minidom: the executable contract of minidom_model.py, interpreted."""
import os
from .values import *  # noqa

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'minidom_model.py')


def fill(I, ns):
    from .interp import Frame
    m = Module('minidom')
    m.ns = ns
    ns['__name__'] = 'minidom'
    fr = Frame(I, ns, None, None, 'minidom', module=m)
    fr.locals = ns
    I.run(I.exec_block(I.parse_file(PATH).body, fr))
    I.assumed.add('xml.dom.minidom behaves as pyvc/minidom_model.py says (compared with the real one by pyvc/selftest.py)')
