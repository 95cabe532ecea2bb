"""faults inside behaviour preserving rewrites of the other lists"""
import glob, importlib.util, os

OTHER = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'edits_*.py'))):
    if f != os.path.abspath(__file__):
        sp = importlib.util.spec_from_file_location('o', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        OTHER.update({e[2]: e for e in m.EDITS if e[0] == 'same'})


def within(props, name, old, new):
    e = OTHER[name]
    assert sum(n.count(old) for _, _, n in e[3]) == 1, name
    return ('bug', props, 'fault in: ' + name, [(f, o, n.replace(old, new)) for f, o, n in e[3]])


EDITS = [
    within('C02 C04', 'loop with a flag', 'else {\n                stuck = true;', 'else {'),
    within('C20', 'resize in one step', 'table.push(Default::default());', ''),
    within('C08', 'group by a loop', 'return true', 'return false'),
    within('C08', 'group by a loop', '            false\n', '            true\n'),
]
