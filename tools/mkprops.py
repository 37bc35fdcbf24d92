"""Writes properties.jsonl (run once after editing the table below)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, N = 'liblarch/tree.py', 'liblarch/treenode.py'
F, V, C = 'liblarch/filteredtree.py', 'liblarch/viewtree.py', 'liblarch/viewcount.py'
B, Q, I = 'liblarch/filters_bank.py', 'liblarch/processqueue.py', 'liblarch/__init__.py'
G = 'liblarch_gtk/treemodel.py'
W = 'liblarch_gtk/__init__.py'
P = []


def p(i, title, st, over, text, why, files, mech, state=()):
    P.append({'id': i, 'title': title, 'statement': st,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [
                  {'name': m, 'where': ', '.join(files)} for m in mech],
                          'state': [dict(zip(('name', 'meaning', 'where'), s))
                                    for s in state]}})


HIST = 'every finite sequence of public tree operations on any number of nodes, in any shape of tree (shared children, several parents, pending relationships)'
FEW = 'The tests build a few fixed or random trees and check them at the end; a link left behind needs a particular combination of shared parents, pending relationships and flags before the operation.'
p('C01', 'Parent and child links always agree',
  'After every operation on the tree, a node lists another one as its child exactly when that other one lists it as its parent, at most once, and both nodes are in the tree. No relationship is ever half made or half broken, also when an operation ends with an exception.',
  ['histories', 'inputs'], HIST, FEW, [T, N],
  ['MainTree._new_relationship', 'MainTree._break_relationship', 'MainTree._add_node', 'MainTree._remove_node'],
  [('nodes', 'nodes in the tree', T), ('children/parents', 'links', N)])
p('C02', 'The tree never contains a cycle',
  'No sequence of operations, including additions which complete relationships that were waiting for a node, makes a node its own ancestor. A link which would close a circle is refused.',
  ['histories', 'inputs'], HIST, 'Tests try circles of length one to three among nodes which are all present; circles through far ancestors and through pending relationships are not sampled.', [T],
  ['MainTree._is_circular_relation', 'MainTree._new_relationship', 'MainTree._add_node'])
p('C03', 'A node is at the top level exactly when it has no parents',
  'After every operation, the top level consists of the nodes of the tree which have no parents, each exactly once.',
  ['histories', 'inputs'], HIST, FEW, [T],
  ['MainTree._new_relationship', 'MainTree._break_relationship', 'MainTree._add_node', 'MainTree._remove_node'])
p('C04', 'Removing a node leaves no trace and rehomes its children',
  'After a node is removed, no other node refers to it, no waiting relationship mentions it, and each of its children stays in the tree, at the top level if it has no other parent. A recursive removal removes exactly the node and everything below it.',
  ['histories', 'inputs'], HIST, 'Tests remove nodes with one parent; a node with several parents, shared children or pending relationships is rarely removed.', [T],
  ['MainTree._remove_node', 'Tree.del_node'])
p('C05', 'Relationships with absent nodes take effect when the node comes',
  'A relationship requested with a node which is not in the tree yet is remembered, in either direction, and becomes a link when that node is added, exactly once. Until then it has no effect, and breaking it, moving the child elsewhere or removing one of the nodes makes it forgotten.',
  ['histories', 'inputs'], HIST, 'Tests cover single pending parents; the order of additions, replaced pending parents, and both directions waiting at once are not covered.', [T, N],
  ['MainTree.pending_relationships', 'MainTree._new_relationship', 'MainTree._break_relationship', 'MainTree._add_node', 'TreeNode.set_parent'])
p('C06', 'A refused operation changes nothing',
  'When an operation is refused (circular relationship, duplicate node, node in itself, unknown node), the tree, the waiting relationships and the links of all nodes are as they were before, and no listener is told anything.',
  ['inputs', 'histories'], HIST, 'Tests assert that the exception is raised; they do not compare the whole tree before and after.', [T, N],
  ['MainTree._add_node', 'MainTree._new_relationship', 'TreeNode.set_parent'])
p('C07', 'Listeners are told after the change, about every changed node',
  'Each listener is told once about an added and once about a removed node, and about every node whose links changed, after the change is complete for that node: no notification about a node comes before the last change of its links.',
  ['histories', 'inputs'], HIST, 'Tests count callbacks in simple cases; the order between link changes and callbacks is only visible to a listener which looks at the tree during the callback.', [T, N],
  ['MainTree._callback', 'MainTree._add_node', 'MainTree._remove_node', 'MainTree.modify_node'])
p('C08', 'Other threads never touch the tree themselves',
  'An operation called in another thread than the one which made the tree neither changes the tree nor calls listeners in that thread. When the main loop has processed the request, the effect is the one the operation would have had there.',
  ['schedules', 'histories'], 'every modifying operation of the public interface, called in a foreign thread on any tree', 'Tests use one or two threads and whatever interleaving the scheduler gives; a direct change from the wrong thread is a race which nearly never shows.', [T, N, Q],
  ['SyncQueue.push', 'MainTree.add_node', 'MainTree.new_relationship', 'MainTree.break_relationship', 'MainTree.request'])
p('C09', 'Queued requests run exactly once, by priority and in order',
  'Every request made in another thread is carried out exactly once with its own arguments; high priority requests come before normal ones and these before low priority ones, and equal priorities keep the order of arrival. A request equal to one still waiting with the same priority may be merged with it.',
  ['schedules', 'histories'], 'all histories of requests and main loop turns, all interleavings of pushing threads with the main loop', 'Tests push a few requests and run the loop once.', [Q],
  ['SyncQueue.push', 'SyncQueue.process', 'SyncQueue.process_queue'])
p('C10', 'The request queue never stalls',
  'Whenever requests are waiting, the main loop has a source which will process them, also after a request failed and after the queue had been empty. The queue lock is released on every path and is not held while a request runs, so requests may make further requests.',
  ['schedules', 'fault_sequences', 'histories'], 'all histories of requests, failing requests and main loop turns, all interleavings', 'A lost wake-up needs a switch between two particular statements, or a failing request.', [Q],
  ['SyncQueue._handler', 'SyncQueue._lock', 'SyncQueue.process_queue'])
p('C11', 'A view shows exactly the nodes which pass its filters',
  'After every change of the tree or of a node is announced, a filtered view contains a node exactly when the node is in the tree and passes all filters applied to that view. The shown ancestors of a changed node are looked at again too, and so are its hidden parents when it does not stay on display.',
  ['histories', 'inputs', 'configurations'], 'all trees, all filters as arbitrary predicates, all announced changes', 'Tests use three filters and a few trees; whether a node was brought up to date depends on where it hangs and on which of its relatives are displayed.', [F],
  ['FilteredTree.__update_node', 'FilteredTree.__is_displayed', 'FilteredTree.__external_modify'])
p('C12', 'Displayed nodes hang under their displayed parents',
  'In a view, a displayed node is below exactly those of its parents which are displayed themselves, and at the top level if there are none. With a flat filter all displayed nodes are at the top level and have no children.',
  ['histories', 'inputs', 'configurations'], 'all trees, all filters, flat or not, all announced changes', 'Which parents of a node with several parents are displayed, and in which order they appear or vanish, is sampled only a little.', [F],
  ['FilteredTree.__node_parents', 'FilteredTree.__node_children', 'FilteredTree.__update_node', 'FilteredTree.refilter'])
p('C13', 'The events of a view describe its changes exactly',
  'A listener which applies the added, deleted and modified events of a view to its own copy always has the same rows at the same paths as the view. Each appearing or vanishing row is announced exactly once, with the path it has (had), also when a node is shown in several places.',
  ['histories', 'inputs'], 'all changes of a view by updates, moves, additions and removals of nodes with several displayed parents', 'The tests compare a model after random operations; an event with a wrong path or a missing one needs a node with several displayed parents.', [F],
  ['FilteredTree.callback', 'FilteredTree.get_paths_for_node', 'FilteredTree.send_add_tree', 'FilteredTree.send_remove_tree', 'FilteredTree.__update_node'])
p('C14', 'Applying, removing and resetting filters takes full effect',
  'After filters are applied, removed or reset, the set of applied filters is the requested one, without duplicates, and the view has been refreshed for it unless the refresh was postponed by the caller. A call which is refused (parameters for a filter which does not exist) changes nothing. A filter which is not in the bank lets no node pass; a filter which is removed from the bank leaves no trace; functions get the parameters of their filter, negated filters let pass what others hold back; and the view is flat exactly when one of the applied filters has that parameter.',
  ['histories', 'inputs', 'configurations'], 'all sequences of filter operations, all filter names and parameters', 'Tests apply single filters; combinations of reset, postponed refresh, parameters, negated and flat filters are not covered.', [F, B],
  ['FilteredTree.apply_filter', 'FilteredTree.unapply_filter', 'FilteredTree.reset_filters', 'FiltersBank.add_filter', 'FiltersBank.remove_filter'])
p('C15', 'The counting view counts exactly the matching nodes',
  'The counter of a counting view is the number of nodes in the tree which pass its filters, after every announced change, and its listeners are told exactly when the number changes.',
  ['histories', 'inputs'], 'all trees, filters as arbitrary predicates, all announced changes', 'Tests count a few nodes with one filter; a node announced twice or changed between being listed and counted is not covered.', [C],
  ['ViewCount.__modify', 'ViewCount.__refresh', 'ViewCount.__delete', 'ViewCount.apply_filter', 'ViewCount.unapply_filter', 'ViewCount.get_n_nodes'])
p('C16', 'Listeners are neither lost, mixed up nor kept',
  'A registered listener gets every later event of its kind until it is deregistered, and none afterwards; registering never displaces another listener. Deregistering one listener leaves all others alone. This also holds when listeners register and deregister while they are being called.',
  ['histories'], 'all sequences of registrations and deregistrations', 'Tests register one listener of each kind and never deregister and register again.', [T, F, V, C],
  ['MainTree.register_callback', 'MainTree.deregister_callback', 'ViewTree.register_cllbck', 'ViewTree.deregister_cllbck', 'ViewTree.__emit', 'ViewCount.register_cllbck', 'ViewCount.unregister_cllbck'])
p('C17', 'An action queued for a node runs once, when the node appears',
  'An action queued for a node on a view runs immediately if the node is displayed, otherwise once when it first appears in the view. It never runs twice, and an action for one node does not disturb the actions of others.',
  ['histories', 'inputs'], 'all nodes, all identifiers, all orders of queueing and appearing', 'Tests queue one action for one node.', [F, V],
  ['ViewTree.queue_action', 'FilteredTree.set_callback', 'FilteredTree.callback'])
p('C18', 'Queries neither change the tree nor hand out its insides',
  'Asking a tree, a node or a view for something changes nothing that anyone can observe and calls no listener. Changing a returned list does not change the tree.',
  ['inputs', 'histories'], 'all query methods, all trees', 'Tests look at the answers, not at what happens to the tree when the answer is modified.', [T, N, F, V],
  ['TreeNode.get_children', 'TreeNode.get_parents', 'MainTree.get_all_nodes', 'ViewTree.get_all_nodes', 'FilteredTree.node_all_children', 'FilteredTree.node_parents', 'FilteredTree.list_applied_filters'])
p('C19', 'The main view mirrors the tree unfiltered',
  'The main view of a tree always answers exactly as the tree itself, and asking it for filters or changing its filters is refused or has no effect. Views with the same name are one view, and different names give independent views.',
  ['histories', 'configurations'], 'all trees and view names', 'Tests compare a few answers of the main view with the tree.', [I, V],
  ['Tree.get_main_view', 'Tree.get_viewtree', 'Tree.get_viewcount', 'ViewTree.__init__'])
p('C20', 'The GTK model mirrors the view it shows',
  'Each event of the view is turned into the matching change of the GTK model: an added row is inserted below its parent row with the values of the node, a deleted row is removed, and a modified row gets the fresh values of all columns (a function of a column which returns None leaves the old value). The model tells rows apart by their place, so a node shown twice keeps two rows, and no row is mistaken for another one, also when rows come and go and the rows are sorted.',
  ['histories', 'inputs'], 'all sequences of view events', 'The GTK tests run only with a display and compare a few rows.', [G, W],
  ['TreeModel.add_task', 'TreeModel.remove_task', 'TreeModel.update_task', 'TreeModel.connect_model'])
p('C21', 'Moving a node makes the new parent its only one',
  'After a node is moved below a parent, that parent is its only one, and no waiting relationship with another parent is left; moved to the top level it has none. A refused move leaves its current parents.',
  ['histories', 'inputs'], 'all nodes with any number of parents, present or absent new parent', 'Tests move nodes with one parent.', [N, I],
  ['TreeNode.set_parent', 'Tree.move_node'])
p('C22', 'Nodes which must not have parents or children never get any',
  'A node for which parents (or children) are disabled has no parents (children), whatever operation asks for a link, and disabling removes the existing links.',
  ['histories', 'inputs'], 'all operations which make links, including waiting relationships and additions below a parent', 'Tests try one operation with one flag.', [N, T],
  ['TreeNode.set_parents_enabled', 'TreeNode.set_children_enabled', 'MainTree._new_relationship', 'MainTree._add_node'])
p('C23', 'Paths and neighbours are consistent with the links',
  'Every path of a node begins at a top level node, follows parent to child links and ends at the node; different paths for each chain of parents, and asking for the node at a path gives the node back. Children, their number and positions, and the next sibling agree with each other.',
  ['histories', 'inputs'], 'all trees and views, all nodes and positions', 'Tests check paths in a few trees.', [T, F, V],
  ['MainTree.get_paths_for_node', 'MainTree.get_node_for_path', 'FilteredTree.get_paths_for_node', 'FilteredTree.get_node_for_path', 'FilteredTree.next_node'])
p('C24', 'Linking and unlinking change exactly the named link',
  'Adding a parent or child to a node adds that link and keeps all others; removing it removes that link and keeps all others. All the ways to say the same thing have the same effect.',
  ['histories', 'inputs'], HIST, 'Tests look at the named nodes, not at bystanders.', [N, T, I],
  ['TreeNode.add_parent', 'TreeNode.add_child', 'TreeNode.remove_parent', 'Tree.add_parent', 'MainTree._new_relationship'])
W = 'liblarch_gtk/__init__.py'
p('C25', 'Dropping rows moves exactly the dragged nodes below the drop target',
  'When rows of the tree widget are dragged and dropped inside the widget, each dragged node is moved once below the node it was dropped on (below the parent of the row when dropped before or after a row, to the top level when dropped outside of the rows or next to a top level row), and no other node is moved; a node whose move is refused does not stop the others. A dragged row which vanishes because another dragged node was moved before (its child, the same node at another place) may stay where it went. Rows dragged from another widget are handed, once each and with the target node, to the function which was set for this kind of target, and nothing is moved; outside of any node nothing happens. Dragging nothing does nothing. Own rows are only accepted from the same widget.',
  ['inputs', 'histories'], 'all views, all choices of dragged rows, all places to drop, all refused moves', 'The tests never drag anything: that needs a display and a mouse. Which row an iterator stands for after a move depends on how GTK uses memory again.', [W, G],
  ['TreeView.on_drag_data_get', 'TreeView.on_drag_data_received', 'TreeView.set_dnd_name', 'TreeView.set_dnd_external'])
p('C26', 'The widget shows, sorts and addresses exactly the columns and rows it was told',
  'Each column of the description is shown in the widget exactly once, in the described order, by its own renderer and attribute and with the values of its own function; options (title, visible, expandable, resizable) and sorting are those described. Later calls by column name (visibility, size, search, expander, sorting, background colour) reach that column and no other; an unknown column for the colour is refused with ValueError. Sorting functions get the nodes of the two rows and the order, and their answer counts. The selected nodes are those of the selected rows; separators are asked with the node of the row. Collapsing or expanding a node acts on all its rows, at once or when it first appears; rows which get children are expanded unless their node was collapsed by the client; signals about rows carry the path of the row. Showing the widget again changes nothing.',
  ['inputs', 'configurations', 'histories'], 'all descriptions of columns, all views, all rows and columns asked for', 'The tests build one widget with one description and a mocked tree, and look at almost nothing of what GTK is told.', [W, G],
  ['TreeView.__init__', 'TreeView.collapse_node', 'TreeView.expand_node', 'TreeView.set_bg_color', 'TreeView._sort_func', 'TreeView.get_selected_nodes', 'TreeView.on_child_toggled', 'TreeView.set_row_separator_func'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
