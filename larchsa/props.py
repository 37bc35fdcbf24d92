"""The properties, and the analyses which decide them."""
from .program import AnalysisBroken
from .run import run_operation, run_foreign
from . import treeops

REGISTRY = {}


class Prop:
    technique = ('abstract interpretation of the source (shape analysis '
                 'with named representatives and summary nodes)')
    note = ('Every path of the analysed operations from an arbitrary '
            'abstract entry state, judged against a specification of the '
            'operation. Precise states alone raise violations; what the '
            'analysis cannot follow is counted as undecided in the '
            'evidence. Trusts the analyser and its model of Python.')

    def __init__(self, ident, jobs, rule, explanation, assumptions=()):
        self.ident = ident
        self.jobs = jobs
        self.rule = rule
        self.explanation = explanation
        self.assumptions = list(assumptions)


def get(ident):
    if ident not in REGISTRY:
        raise SystemExit('unknown property %s' % ident)
    return REGISTRY[ident]


def prop(ident, jobs, rule, explanation, assumptions=()):
    REGISTRY[ident] = Prop(ident, jobs, rule, explanation, assumptions)


# ---- operations on the tree -------------------------------------------------
def tree_job(prog, res, index, tier):
    label, make = treeops.scenarios(prog, tier)[index]
    run_operation(prog, res, make)


def tree_jobs(prog, tier):
    return [(label, tree_job, (i, tier)) for i, (label, _) in enumerate(
        treeops.scenarios(prog, tier))]


SHAPE = ('Abstract interpretation (shape analysis) of the source of the '
         'operations: every named node stands for an arbitrary node, all '
         'other nodes of a tree of any size are summarised, every link, '
         'membership and flag on entry is an undetermined fact on which the '
         'analysis splits only when the code asks for it. Each exit state '
         'is compared with the specification of the operation.')

TREE_ASSUME = [
    'operations start in trees in which the structural invariants hold '
    '(they are shown to be kept, so this is an induction)',
    'requests of one tree are processed one after another (see C08, C10)',
    'node identifiers are non-empty, hashable and not those of the root',
]

for ident, rule in (
        ('C01', 'on every exit, x in children(y) iff y in parents(x), at '
                'most once, and both are in the tree'),
        ('C02', 'on every exit, no link was added which closes a cycle'),
        ('C03', 'on every exit, a node is at top level (once) iff it is in '
                'the tree and has no parents'),
        ('C04', 'after a removal no link, pending relationship or top level '
                'entry mentions the node; children are kept (or removed)'),
        ('C05', 'relationships with absent nodes are pending, and become '
                'links exactly when the missing node is added'),
        ('C06', 'a refused operation changes nothing and tells nobody'),
        ('C07', 'the last notification about a node comes after the last '
                'change of its links; added and deleted nodes are told '
                'once, after the change'),
        ('C21', 'after a move the new parent is the only one'),
        ('C22', 'disabled parents or children get no links'),
        ('C24', 'linking and unlinking change exactly the named link')):
    prop(ident, tree_jobs, rule, SHAPE, TREE_ASSUME)


# ---- the request queue ------------------------------------------------------
from . import queueops  # noqa: E402

QUEUE = ('Abstract interpretation of the queue driven by a most general '
         'client: opaque requests (so the result does not depend on which '
         'they are), all histories of a bounded number of requests and '
         'main loop turns, context switches wherever the lock is taken or '
         'released.')
QUEUE_ASSUME = [
    'the main loop calls a registered source until it is removed or '
    'returns a false value, and runs in the thread which made the queue',
    'the queue treats requests alike (data independence): it only compares '
    'them for equality',
    'threads switch where the lock is taken or released; single list '
    'operations are atomic',
]


def order_job(prog, res, index, tier):
    run_operation(prog, res, treeops.orders(prog, tier)[index][1])


def order_jobs(prog, tier):
    return queueops.queue_jobs(prog, tier) + [
        (label, order_job, (i, tier))
        for i, (label, _) in enumerate(treeops.orders(prog, tier))]


prop('C09', order_jobs,
     'each request is carried out exactly once, with its arguments, high '
     'before normal before low priority, in the order of arrival', QUEUE,
     QUEUE_ASSUME)
prop('C10', queueops.queue_jobs,
     'whenever requests wait, one handler is registered; the lock is '
     'released on every path and not held while a request runs; a failing '
     'request does not stop the others', QUEUE, QUEUE_ASSUME)


def foreign_job(prog, res, index, tier):
    label, make = treeops.scenarios(prog, tier)[index]
    run_foreign(prog, res, make)


def foreign_jobs(prog, tier):
    out = []
    for i, (label, _) in enumerate(treeops.scenarios(prog, tier)):
        if label == 'RefreshAll' or label.startswith('Late '):
            continue    # any number of nodes: any number of requests
        if tier == 'thorough' or 'closed world' in label or \
                'two nodes' in label or label.startswith(
                    ('Refresh', 'Modified', 'Self', 'RemoveAll')):
            out.append((label + ' from another thread', foreign_job,
                        (i, tier)))
    return out


prop('C08', foreign_jobs,
     'an operation called in another thread leaves the tree as it is and '
     'calls no listener; processing the queue then has the effect of the '
     'operation', SHAPE, TREE_ASSUME[:1] + QUEUE_ASSUME[:1])


# ---- filtered views ---------------------------------------------------------
from . import viewops  # noqa: E402

VIEW = ('Abstract interpretation of the tree together with a filtered view '
        'of it: up to three (thorough: four) nodes with every link, the '
        'answer of the filters before and after the change, and what the '
        'view shows on entry being undetermined facts, on which the '
        'analysis splits only when the code asks for them. The filter is '
        'opaque. Each exit state is compared with what the view has to '
        'show, and the recorded events are replayed symbolically.')
AGAIN = (' Histories: in trees of given shapes, all questions are asked, '
         'the tree or what the filter says is changed, and all questions are '
         'asked again (thorough: for each change of each shape).')
VIEW_ASSUME = [
    'the view fits the tree before the change (it is shown to fit '
    'afterwards, so this is an induction)',
    'views of more than three (four) nodes behave alike: the nodes are '
    'arbitrary, but no others take part',
    'the filters change their mind only about nodes which the change is '
    'about (the changed node, the nodes it is linked to or unlinked from; '
    'parents and children of removed nodes)',
    'filters and listeners do not change the tree, and requests of one '
    'tree are processed one after another (see C08, C10)',
]
for ident, rule in (
        ('C11', 'on every exit, the view holds exactly the nodes which are '
                'in the tree and pass the filters'),
        ('C12', 'on every exit, the parents and children of a shown node in '
                'the view are its shown parents and children, else it is a '
                'child of the virtual root (always, with a flat filter)'),
        ('C13', 'replaying the events turns the rows before into the rows '
                'after the change: no row is added twice or before its '
                'parent, deleted twice or before its children, or modified '
                'while it is not there; the row of a modified node is '
                'announced')):
    prop(ident, lambda prog, tier: viewops.view_jobs(prog, tier) +
         queryops.view_jobs(prog, tier), rule, VIEW + AGAIN, VIEW_ASSUME)
prop('C15', lambda prog, tier: viewops.count_jobs(prog, tier) +
     queryops.count_jobs(prog, tier),
     'on every exit, the counting view holds exactly the nodes which are in '
     'the tree and pass its filters, and listeners are told exactly when '
     'the number changes', VIEW.replace('filtered view', 'counting view')
     .replace('shows', 'counts').replace('show,', 'count,'), VIEW_ASSUME)


# ---- questions --------------------------------------------------------------
from . import queryops  # noqa: E402

QUERY = ('Abstract interpretation of every public question to a tree, a '
         'node, a filtered view and the main view, in an arbitrary state of '
         'up to three nodes (undetermined links, shown or hidden nodes), '
         'and, for positions, in states with lists in a given order. The '
         'answer is compared with the one which follows from the facts of '
         'the entry state, the exit state with the entry state.' + AGAIN)
prop('C18', queryops.query_jobs,
     'no question changes a container which holds the state, calls a '
     'listener, or returns a container which holds the state', QUERY,
     VIEW_ASSUME[:2])
prop('C23', queryops.query_jobs,
     'paths, children, their number and position, parents and next sibling '
     'are those which follow from the links', QUERY, VIEW_ASSUME[:2])


# ---- filters ----------------------------------------------------------------
from . import filterops  # noqa: E402

prop('C14', filterops.filter_jobs,
     'after calls about filters, the applied filters, the filters of the '
     'bank and the parameters their functions get are those a model of the '
     'calls expects; the view shows what the filters in force at its last '
     'refresh let pass, flat or not, and its events tell of it',
     'Abstract interpretation of sequences of one to three (thorough: one '
     'with three nodes) calls about filters from states with each choice of '
     'applied filters; the functions of the filters are opaque, what they '
     'say about each node is an undetermined fact. ' + VIEW, VIEW_ASSUME[:2])


# ---- listeners, actions, names ----------------------------------------------
from . import listenops  # noqa: E402

CLIENT = ('Abstract interpretation of what a client does with listeners, '
          'actions and views: every order of up to three (thorough: four) '
          'registrations and deregistrations, calls from within listeners, '
          'then changes of a tree in which links and what the filters say '
          'are undetermined facts. Listeners, actions and filters are '
          'opaque, so the result does not depend on which they are. ')
prop('C16', listenops.listen_jobs,
     'whenever something happens, all listeners registered for that kind of '
     'event are called equally often with the same arguments, and no other '
     'listener is called', CLIENT, VIEW_ASSUME[1:2])
prop('C17', listenops.action_jobs,
     'an action runs exactly once, with its parameter: when it is queued if '
     'its node is shown, else when the node appears; not before, and no '
     'other action is disturbed', CLIENT, VIEW_ASSUME[1:2])
prop('C19', lambda prog, tier: listenops.named_jobs(prog, tier) +
     queryops.main_jobs(prog, tier),
     'one name, one view; calls about filters of one view change neither '
     'what another one (or the main view) shows nor its filters; each answer '
     'of the main view is that of the unfiltered tree', CLIENT + QUERY,
     VIEW_ASSUME[:2])


# ---- the GTK model -------------------------------------------------------------
from . import gtkops  # noqa: E402

prop('C20', gtkops.gtk_jobs,
     'after every event of the view the store has exactly the rows of the '
     'view, each below its parent row, with the values of its node; no '
     'iterator of a removed row is used',
     'Abstract interpretation of TreeModel driven by a most general view: '
     'every legal order of a bounded number of events for rows at several '
     'places, for stores kept in order and sorted ones (rows may be '
     'anywhere among their siblings). Node identifiers, nodes and the '
     'functions of columns are opaque. Gtk.TreeStore is modelled by its '
     'documentation; the memory of a removed row may be used again.',
     ['events come in the order shown for C13: parents are added first, '
      'children are deleted first',
      'the functions of columns return no None (the model keeps the old '
      'value then, on purpose)',
      'Gtk.TreeStore behaves as documented'])

# ---- the widget ------------------------------------------------------------------
from . import widgetops  # noqa: E402

GTKTEXT = ('Gtk widgets, the tree store, its iterators and paths are '
           'modelled by their documentation: what they are told is recorded, '
           'what they answer follows from the rows of the view; the memory '
           'of a removed row may be used again. Nodes, identifiers and the '
           'functions of the client are opaque.')

prop('C25', widgetops.drag_jobs,
     'after a drop exactly the dragged nodes were moved, below the target '
     'of the drop, or handed to the function of the target, once each; a '
     'refused move does not stop the others, and nothing fails',
     'Abstract interpretation of the widget, from its construction: rows '
     'are picked, dragged and dropped, for every choice of at most two rows '
     '(or all) and every place of listed views, between the widgets and '
     'within one; each move changes the rows of the model as a view would. '
     + GTKTEXT,
     ['the rows of both widgets do not change between dragging and dropping '
      'but by the moves themselves',
      'views of other shapes than those listed behave alike',
      'Gtk behaves as documented'])

prop('C26', widgetops.widget_jobs,
     'each described column is shown once, in order, by its renderer, with '
     'the values of its function; what is later asked of a column, row or '
     'node by name reaches this one and no other, in GTK',
     'Abstract interpretation of the widget, from its construction from '
     'listed descriptions of columns: then each method is called, for each '
     'column or row, and what GTK is told is compared with what was asked '
     'for. ' + GTKTEXT,
     ['Gtk behaves as documented',
      'a column named by "sorting" is described before the one which names '
      'it'])
