"""Fill the generated parts of DESIGN.md (between <!--X--> and <!--/X-->)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from larchsa import props  # noqa: E402

TREE = ('tree operations of `MainTree`/`Tree`/`TreeNode` (add, remove, '
        'recursive remove, link, unlink, move, flags, modify, requested and '
        'direct), any tree: named nodes + summary of all others; links '
        'requested by another thread while the tree changes')
VIEW = ('tree operations with a `FilteredTree` view, up to 3 (thorough: 4) '
        'shown/hidden nodes, opaque filter, flat or not; histories of '
        'questions and changes over given shapes')
WHAT = {
    'C08': 'every public operation of `Tree`, `TreeNode`, views, called in '
           'another thread: effect analysis of the call, then of the queue',
    'C09': '`SyncQueue`: arbitrary waiting requests of three priorities, '
           'sequences of pushes and processing steps',
    'C10': '`SyncQueue`: same, with requests that fail or push; lock state '
           'tracked on every path',
    'C14': 'sequences of `FiltersBank`/`ViewTree`/`FilteredTree` filter '
           'calls with a view of few nodes',
    'C15': '`ViewCount` with any filters and any entry state, tree events; histories of making, applying, taking off, removing and replacing filters',
    'C16': 'register/deregister calls of `ViewTree`/`FilteredTree`/'
           '`MainTree`/`ViewCount`, listeners which (de)register meanwhile',
    'C17': '`queue_action` and later events over views of few nodes, several '
           'actions and parameters',
    'C18': 'every question of `Tree`, `TreeNode`, `ViewTree`, main view, '
           'bank: escape analysis of returned containers + effects',
    'C19': '`get_viewtree`/`get_main_view` call sequences, two views, '
           'questions to the main view',
    'C20': '`liblarch_gtk.TreeModel` driven by every order of events of a '
           'view, against a model of `Gtk.TreeStore` with rows and iters',
    'C23': 'path and neighbour questions of tree, main view and filtered '
           'views over listed shapes, before and after changes',
}
for c in 'C01 C02 C03 C04 C05 C06 C07 C21 C22 C24'.split():
    WHAT[c] = TREE
for c in 'C11 C12 C13'.split():
    WHAT[c] = VIEW
WHAT.update({
    'C25': '`liblarch_gtk.TreeView` drag and drop handlers, joined with '
           'the GTK model and a stand-in for the widgets',
    'C26': '`liblarch_gtk.TreeView` columns, sorting, selection, expanding',
})


def properties():
    out = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        ev = os.path.join(HERE, 'evidence', i + '.json')
        nums = ''
        if os.path.exists(ev):
            c = json.load(open(ev))['coverage']
            nums = '%d scenarios, %d exit states, %d obligations' % (
                c.get('scenarios_analysed', 0), c.get("exit_states_judged", 0),
                c.get('obligations', 0))
        out.append('* **%s %s.** Analysed: %s. Rule: %s.%s' % (
            i, p['title'], WHAT.get(i, TREE), props.get(i).rule,
            ' (%s.)' % nums if nums else ''))
    return '\n'.join(out)


def fixes():
    out = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if m:
            out.append('* %s, `%s`: %s' % m.groups())
    return '\n'.join(out)


def seeds():
    out = []
    base = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, d, 'meta.json')))
        out.append('* `%s` (caught by %s): %s' % (
            d, m['property'], m['what_it_breaks']))
    return '\n'.join(out)


path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
for name, make in (('PROPS', properties), ('FIXES', fixes), ('SEEDS', seeds)):
    text = text.replace('@@%s@@' % name, '<!--%s-->\n<!--/%s-->' % (name, name))
    text = re.sub(r'<!--%s-->.*<!--/%s-->' % (name, name),
                  lambda _: '<!--%s-->\n%s\n<!--/%s-->' % (name, make(), name),
                  text, flags=re.S)
open(path, 'w').write(text)
