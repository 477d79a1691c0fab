#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=state or [],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

p("P01", "Forward kinematics gives the composed world pose of every node",
  "After the transforms of a chain are updated, every node's world transform (the returned list, in iteration order, and the value read from the node) is the product, along the path from the root of its tree, of each node's origin and its joint motion (rotation about / translation along the joint axis by the joint position). This holds whatever the tree shape, the joint types and axes, origins, positions, the history of earlier moves and updates, and for a chain that starts in the middle of a tree or consists of only some nodes of it; the result is a rigid motion and the end transform of a serial chain is the same product taken over the nodes of that chain.",
  ["inputs", "histories", "configurations"], "all trees (depth, branching, joint kinds, axes), origins, positions, f32 and f64, all histories of setters/origin changes/updates through any view",
  "test_chain only prints poses; the doc tests check one 3-joint chain at a handful of angles. Nothing covers arbitrary axes, rotated origins, deep or branching trees, sub-chains, repeated updates or f32/f64.",
  ["src/chain.rs", "src/node.rs", "src/joint/joint.rs"],
  [("update_transforms", "src/chain.rs"), ("local_transform", "src/joint/joint.rs"), ("parent_world_transform", "src/node.rs"), ("end_transform", "src/chain.rs")],
  ["Chain::update_transforms result", "Node::world_transform", "SerialChain::end_transform", "Joint::local_transform"],
  [dict(name="world_transform_cache", meaning="last computed world pose of the joint", where="src/joint/joint.rs")])

p("P02", "Chains are faithful views of one shared set of nodes",
  "A chain made from a root contains every descendant of it exactly once with parents before children, a chain made from an end node (optionally up to a given ancestor) contains exactly the path between them, and a chain made from a list of nodes contains exactly that list; dof, joint positions, joint and link iteration and lookup by name all describe those nodes in that order, also after the tree was changed. A position or origin written through one chain or node handle is read identically through every other chain or handle on the same joint, the i-th value of a position vector always belongs to the i-th movable joint, and a chain made from a root is accepted as serial exactly when no node has more than one child.",
  ["inputs", "histories", "configurations"], "all trees, all choices of root/end nodes, all sequences of reads and writes through several views",
  "Tests use one URDF with two straight arms; they never compare two views of the same nodes, sub-chains in branching trees, duplicate or missing names, or the mapping of position vectors with fixed joints in between.",
  ["src/chain.rs", "src/iterator.rs", "src/node.rs"],
  [("from_root/from_end/from_end_to_root/from_nodes", "src/chain.rs"), ("Descendants/Ancestors", "src/iterator.rs"), ("SerialChain::try_new", "src/chain.rs"), ("find/iter_joints/iter_links", "src/chain.rs")],
  ["Chain::iter", "Chain::iter_joints", "Chain::iter_links", "Chain::joint_positions", "Chain::find", "Chain::dof"])

p("P03", "Parent and child relations stay mutually consistent",
  "Under any sequence of connecting parentless nodes to a parent and disconnecting nodes from their parent, a node is listed among the children of exactly the node it reports as its parent, is a root exactly when it has no (living) parent and an end exactly when it has no children. Iterating ancestors yields the path to the root, iterating descendants yields each node of the subtree exactly once with every node after its parent, and children keep the order in which they were connected.",
  ["histories", "inputs"], "all sequences of set_parent / connect! / remove_parent / dropping handles that keep the structure a forest",
  "Tests only build static trees with set_parent; remove_parent is never executed, nor are histories that rebuild trees.",
  ["src/node.rs", "src/iterator.rs"],
  [("set_parent/remove_parent/connect!", "src/node.rs"), ("is_root/is_end/parent/children", "src/node.rs"), ("Ancestors/Descendants", "src/iterator.rs")],
  ["Node::parent", "Node::children", "Node::is_root", "Node::is_end", "Node::iter_ancestors", "Node::iter_descendants"])

p("P04", "Joint limits decide which positions are accepted and stored",
  "A checked position setter accepts a position exactly when the joint is movable and the position is inside its inclusive limits (any position if it has none), stores an accepted value exactly, and on rejection leaves that joint unchanged and reports the cause (fixed joint, or out of limit with the joint's name, the requested value and the limits). A vector of the wrong length is rejected without moving anything, a rejected vector never leaves a joint at a value that is neither its old nor its requested one, the clamping setter stores the nearest value inside the limits for every non-NaN input and leaves fixed joints alone, and the unchecked setter stores exactly what is given.",
  ["inputs", "configurations"], "all limits (degenerate, one-sided, infinite, denormal), all positions incl. boundary neighbours, infinities and NaN, all joint kinds, f32 and f64, through joint, node and chain",
  "Doc tests check a few values well inside/outside one range; boundaries, NaN, degenerate ranges, vector length mismatch and partial failures of the chain setter are not tested.",
  ["src/joint/joint.rs", "src/joint/range.rs", "src/chain.rs", "src/node.rs", "src/errors.rs"],
  [("set_joint_position*", "src/joint/joint.rs"), ("Range::is_valid/clamp/new", "src/joint/range.rs"), ("set_joint_positions*", "src/chain.rs")],
  ["return value and joint_position() after each setter call", "Range::is_valid / clamp"])

p("P05", "Mimic joints follow the joint they mimic",
  "Whenever a movable joint is moved successfully by a position setter, every joint set to mimic it ends at multiplier times the new position plus offset, and every joint that has no mimic relation to it keeps its position. Setting a mimicking joint's own position directly succeeds without moving it, a follower is never put outside its limits (the call fails instead), and the defaults of the relation read from a URDF are multiplier 1 and offset 0.",
  ["inputs", "histories", "configurations"], "all mimic graphs (several followers and leaders, followers anywhere in the tree), multipliers, offsets, limits, positions, sequences of setter calls, chains built by hand or from URDF",
  "One unit test and one doc test check a single follower directly after its leader; no sequences, several followers, limits on followers, URDF mimics or followers placed before their leader.",
  ["src/node.rs", "src/joint/mimic.rs", "src/urdf.rs"],
  [("set_joint_position propagates", "src/node.rs"), ("set_mimic_parent", "src/node.rs"), ("mimic_position", "src/joint/mimic.rs"), ("mimic import", "src/urdf.rs")],
  ["Node::joint_position / Chain::joint_positions after each call"])

p("P06", "A cloned chain is an equal and independent copy",
  "Cloning a chain that starts at a root yields a chain with the same nodes in the same order (and so the same dof and joint position vector), the same names, joint types, limits, origins, positions, velocities, links, parent relations, child order, cached transforms and mimic relations between cloned joints. Afterwards no operation on the copy changes anything observable through the original and vice versa, and either keeps working after the other is dropped.",
  ["inputs", "histories", "configurations"], "all trees incl. branching ones, partial chains from an end, mimic relations inside and leaving the chain, all later operation sequences on either copy",
  "test_clone uses the sample robot with both chains set to the same vector, so it cannot see a permuted order, shared nodes in other fields, mimic relations or links.",
  ["src/chain.rs"],
  [("Clone for Chain / SerialChain", "src/chain.rs")],
  ["every public accessor of both chains, before and after operations on one of them"])

p("P07", "The Jacobian is the derivative of the end pose",
  "For any serial chain the Jacobian has six rows and one column per movable joint in joint order, where the first three rows are the linear and the last three the angular velocity of the end node, in the coordinates of the chain's end transform, per unit velocity of that joint. This holds for rotational and linear joints with fixed joints anywhere, any axes, origins and positions, and for chains that start below the root of their tree.",
  ["inputs", "configurations"], "all serial chains and sub-chains, positions, axes, origins, f32 and f64",
  "The Jacobian has no test of its own; IK tests use three fixed arms whose convergence survives many Jacobian errors, and never a linear joint, fixed joint or sub-chain.",
  ["src/funcs.rs"],
  [("jacobian", "src/funcs.rs"), ("end_transform", "src/chain.rs")],
  ["return value of jacobian() against numeric differentiation and a closed form"])

p("P08", "IK success means the constrained pose is reached within limits",
  "When the inverse kinematics solver returns success for a finite target, the end transform differs from the target by less than the allowed distance and allowed angle in the constrained coordinates, and every joint of the arm is inside its limits, where all of them also stay on the way from the first step on. The joints listed as ignored (if they started within their limits), and all joints outside the arm, keep exactly their previous positions.",
  ["inputs", "configurations"], "all arms, start positions, targets, subsets of the six constraints, sets of ignored joints, tolerances, multipliers, numbers of tries, f32 and f64",
  "Three tests solve for one pose each with (almost) all constraints; only one ignored joint (the last) is ever used and limits are never active.",
  ["src/ik.rs"],
  [("solve_with_constraints_internal convergence test", "src/ik.rs"), ("ignored joints", "src/ik.rs"), ("clamping", "src/ik.rs")],
  ["joint positions and end pose after Ok"])

p("P09", "IK failure is clean: an accurate error and no joint moved",
  "When the inverse kinematics solver fails, every joint has exactly the position it had before the call, even if that was outside its limits. The error tells the truth: too few free joints exactly when fewer non-ignored joints than constraints remain, an invalid joint name exactly when an ignored name is not a movable joint of the arm, otherwise not converged after the configured number of tries with the residual of the last try, which is not within the tolerances, or a singular matrix; its text tells the same. For every arm, target, constraint set and solver setting, including non-finite targets, no active constraint and zero tries, the call returns instead of panicking or looping.",
  ["inputs", "configurations", "fault_sequences"], "all arms (incl. empty, singular, out of limits), targets (reachable, unreachable, non-finite), constraint and ignored-joint sets, settings",
  "No test provokes a solver failure at all.",
  ["src/ik.rs", "src/errors.rs"],
  [("restore on error", "src/ik.rs"), ("precondition and name checks", "src/ik.rs"), ("NotConvergedError", "src/ik.rs")],
  ["return value, joint positions before and after, panics, CPU time"])

p("P10", "IK reaches nearby targets from well conditioned positions",
  "If a target pose is reached by a small change of the non-ignored joint positions, the constrained Jacobian is well conditioned there and no limit is in the way, the solver succeeds within its number of tries, for any subset of constraints, any set of ignored joints and any arm. Repeated along a path of such targets, it tracks the whole path.",
  ["inputs", "configurations", "histories"], "arms with 1..10 movable joints of both kinds, all 63 non-empty constraint sets, ignored joints, well conditioned starts, small displacements, f32 and f64",
  "Tests converge from one start to one target for two arms of rotational joints.",
  ["src/ik.rs", "src/funcs.rs"],
  [("solve_one_loop_with_constraints", "src/ik.rs"), ("jacobian", "src/funcs.rs")],
  ["Ok/Err of solve calls"])

p("P11", "A null space function moves joints without disturbing the task",
  "With a null space function set and more free joints than constraints, in every step of a solve the function is given the arm's current joint positions and its values displace the joints by their projection onto the null space of the constrained Jacobian of the non-ignored joints, scaled by the solver's multiplier, so that the constrained end pose is unaffected to first order. A function returning zeros, a cleared function, or an arm without redundancy behaves as if none was set, and the supplied reference-position function returns weight times (position - reference) for each joint.",
  ["inputs", "configurations"], "redundant arms, constraint sets, ignored joints, functions, positions, weights, multipliers",
  "One test evaluates the reference function on one vector; no test runs the solver with a null space function.",
  ["src/ik.rs"],
  [("null space branch", "src/ik.rs"), ("create_reference_positions_nullspace_function", "src/ik.rs")],
  ["joint displacement of single solver steps, arguments seen by the function"])

p("P12", "URDF import preserves the robot's kinematics",
  "Loading a valid URDF yields one node per joint plus a root, connected as the URDF's links connect the joints, with each joint's name, kind (revolute and continuous rotate, prismatic slides, the others are fixed), normalised axis, origin (xyz and fixed-axis roll-pitch-yaw) and limits (none unless given as a range), so that forward kinematics equals what the URDF specifies. The order in which links and joints are written in the file does not matter, loading again gives the same order of joints, and loading from a file and from a parsed description agree. A file that is missing or is not a URDF is an error.",
  ["inputs", "programs"], "all valid URDF descriptions: tree shapes, element orders, joint types, defaults left out, non-normalised axes, rotated origins; f32 and f64",
  "Tests load one sample file and check node counts and the first two names.",
  ["src/urdf.rs"],
  [("From<&Robot> for Chain", "src/urdf.rs"), ("From<&Joint>", "src/urdf.rs"), ("isometry/quaternion/axis conversion", "src/urdf.rs")],
  ["structure, joint data and world transforms of the resulting chain"])

p("P13", "URDF import attaches every link's data to the right node",
  "Every URDF link becomes the link of the node of the joint whose child it is (the root link of the root node), with its name, inertial origin, mass and symmetric inertia tensor, and its visuals and collisions in order with their names, origins, geometry (box, cylinder, capsule, sphere, mesh with scale 1 by default), colour and texture. Anything left out gets the documented default and nothing is taken from another link.",
  ["inputs", "programs"], "all valid URDF link contents and element orders, f32 and f64",
  "No test looks at link contents after import.",
  ["src/urdf.rs", "src/link.rs"],
  [("From<urdf_rs::Link/Visual/Collision/Geometry/Material/Inertial>", "src/urdf.rs"), ("set_link in the link loop", "src/urdf.rs")],
  ["Node::link contents, Chain::iter_links"])

p("P14", "Link/joint name maps agree with the imported chain",
  "For any valid URDF, the link-to-joint map sends each link to the joint whose child it is and the root link to the root joint name, the joint-to-link map is its exact inverse, and both agree with which link each node of the imported chain carries; names not in the URDF are absent.",
  ["inputs", "programs"], "all valid URDF descriptions and element orders",
  "One doc test looks up two links in one direction; joint_to_link_map is not tested.",
  ["src/urdf.rs"],
  [("link_to_joint_map/joint_to_link_map", "src/urdf.rs")],
  ["the maps, Node::link().name"])

p("P15", "Link shapes and inertia are placed relative to their node",
  "After link transforms are updated, the world transform of each node's link inertia, each visual and each collision is the node's current world transform times that element's own origin, in every chain and after every sequence of moves; nodes without a link are unaffected and changing an element's origin discards its stale world transform.",
  ["inputs", "histories", "configurations"], "all trees with links, positions, element origins, repeated updates, sub-chains, hand built or from URDF",
  "update_link_transforms is never called by a test.",
  ["src/chain.rs", "src/link.rs"],
  [("update_link_transforms", "src/chain.rs"), ("Inertial/Visual/Collision set_origin, set_world_transform", "src/link.rs")],
  ["Link elements' world_transform()"])

p("P16", "Center of mass is the mass-weighted mean of the links",
  "For any chain with positive total mass, the center of mass equals the sum over its links of mass times the world position of the link's inertial origin at the current joint positions, divided by the total mass. Nodes without a link contribute nothing, and the result does not depend on whether or when transforms were updated before.",
  ["inputs", "histories", "configurations"], "all trees, masses, inertial origins, positions, prior histories",
  "One test with two links and two joint positions.",
  ["src/funcs.rs"],
  [("center_of_mass", "src/funcs.rs")],
  ["return value of center_of_mass()"])

p("P17", "World velocities are the time derivative of world transforms",
  "After velocities are updated, every node's world velocity (returned list and value read from the node) is the linear velocity of the node's world position and the angular velocity of its world orientation that result from the joint velocities of the node and its ancestors at the current joint positions. This holds for rotational, linear and fixed joints at any place including the root, and for chains that start below the root.",
  ["inputs", "histories", "configurations"], "all trees, axes, origins, positions, joint velocities, update histories",
  "update_velocities is never called by a test.",
  ["src/chain.rs", "src/node.rs", "src/joint/velocity.rs", "src/joint/joint.rs"],
  [("update_velocities", "src/chain.rs"), ("velocity of a node from its parent's", "src/node.rs"), ("set_joint_velocity", "src/joint/joint.rs")],
  ["Chain::update_velocities result, Node::world_velocity"])

p("P18", "Chains may be shared between threads",
  "Any mix of calls that read or move joints, update transforms, velocities or link transforms, compute Jacobians, centers of mass or IK, display, clone or replace links, made concurrently from several threads on chains sharing nodes, neither deadlocks, panics, nor races on memory. Each joint position behaves as an atomic register (a read returns a value written by a write that was not already overwritten before the read began), a leader and its followers agree once writers stop, every world pose, Jacobian column and center of mass seen while joints move is composed of positions the joints had meanwhile, forward kinematics afterwards is that of the final positions, and solvers working on disjoint arms of one robot give each arm the result it would have had alone.",
  ["schedules", "histories"], "all thread interleavings of API calls on shared trees whose structure is fixed",
  "All tests are single threaded.",
  ["src/node.rs", "src/chain.rs", "src/funcs.rs"],
  [("one mutex per node", "src/node.rs"), ("lock scopes of guards", "src/node.rs"), ("lock order leader -> follower", "src/node.rs")],
  ["call/return histories of worker threads, panics, thread states, Miri and ThreadSanitizer reports"])

p("P19", "A moved joint never reports its old world pose or velocity",
  "Once a joint's position was changed (by a checked, clamping or unchecked setter, or because it mimics a moved joint) or its origin was changed, the world transform and world velocity read from that joint are absent or those of the new state, never those from before, and after the next update they are present and correct; before the first update they are absent. Likewise changing a joint's velocity discards its world velocity.",
  ["histories", "inputs"], "all sequences of setters and updates on all trees",
  "One doc test checks that a world transform is absent before the first update.",
  ["src/joint/joint.rs", "src/node.rs"],
  [("world_transform_cache / world_velocity_cache resets", "src/joint/joint.rs")],
  ["Node::world_transform, Node::world_velocity directly after each setter"],
  [dict(name="world_transform_cache, world_velocity_cache", meaning="values of the last update, None if outdated by an own change", where="src/joint/joint.rs")])

p("P20", "The textual form of a chain shows exactly its structure",
  "Displaying a chain that starts at some node prints each of its nodes exactly once, one per line, every child below its parent and indented by its depth in the chain, with the joint's name, a symbol for its kind and signed principal axis, and the name of its link if it has one; a serial chain prints the same and a chain without nodes prints nothing.",
  ["inputs", "configurations"], "all trees and sub-chains, names, joint kinds and axes, links",
  "Tests print chains without looking at the output.",
  ["src/chain.rs", "src/node.rs", "src/joint/joint_type.rs"],
  [("fmt_with_indent_level", "src/chain.rs"), ("Display for Node/Joint/JointType", "src/node.rs")],
  ["formatted string"])

p("P21", "Constraints survive serialisation and default to constrained",
  "With serialisation enabled, IK constraints written and read back are identical for every combination of flags and ignored joint names, and when fields are left out of the input, the corresponding coordinates are constrained and no joint is ignored, exactly as in the default constraints.",
  ["inputs", "configurations"], "all 64 flag combinations, all subsets of fields present, arbitrary joint names",
  "The feature is built but has no test.",
  ["src/ik.rs"],
  [("serde attributes of Constraints", "src/ik.rs")],
  ["serialised JSON and deserialised value"])

p("P22", "Queries never change the robot and always repeat",
  "Updating transforms, velocities or link transforms, reading, iterating, searching, displaying, cloning a chain, or computing end transforms, Jacobians and centers of mass never changes any joint's position, velocity, origin, limits, type or name, the tree, the mimic relations, or any link's own data; a world transform or velocity which a query leaves behind in a node is the current one. Repeating a query without a change in between returns the identical result, whatever other queries ran in between.",
  ["histories", "inputs"], "all trees and sub-chains, all sequences of queries",
  "Tests call one or two queries on a state they then discard.",
  ["src/chain.rs", "src/funcs.rs", "src/node.rs", "src/joint/joint.rs"],
  [("interior mutability limited to caches", "src/joint/joint.rs"), ("query functions", "src/chain.rs")],
  ["snapshots of all accessors between queries, bitwise"])

p("P23", "Nodes live as long as something holds their tree, and no longer",
  "A node stays usable with all its ancestors' effects as long as a chain or handle that contains the top of its tree is held, even if the handle of the node itself was dropped, and descendants are kept by their ancestors. When the last chain and handle of a tree are dropped, all memory it used is released, including after cloning, reconnecting, IK and display.",
  ["histories", "configurations"], "all trees, all orders of creating and dropping chains and handles",
  "Tests never drop anything while observing the rest and never measure memory.",
  ["src/node.rs", "src/chain.rs"],
  [("strong child / weak parent references", "src/node.rs"), ("chains hold strong references to their nodes", "src/chain.rs")],
  ["allocation balance of the process, parent()/children() after drops, Miri leak check"])

p("P24", "Inverse kinematics depends on nothing but its problem",
  "The result of an IK solve and the joint positions it leaves are determined by the arm and its joint positions, the target, the constraints and the solver's settings alone: solving the same problem again gives the identical result, whether with the same or a new solver, through any chain that contains the same nodes or on a clone of the robot, in any thread, whatever was solved before, whatever transforms were updated in between, wherever joints beside the arm stand, and in whatever order or multiplicity ignored joints are named. Solving without constraints is solving with the default constraints.",
  ["histories", "inputs", "configurations"], "all arms, targets, constraints, solver settings and null space functions, all histories of solves and updates before the solve",
  "Tests solve a few problems on one robot once each, and only look at the pose reached.",
  ["src/ik.rs", "src/funcs.rs", "src/chain.rs"],
  [("JacobianIkSolver has no state besides its settings", "src/ik.rs"), ("jacobian and end_transform use local transforms of the arm", "src/funcs.rs")],
  ["result of solve / solve_with_constraints", "joint_positions() of the arm, bitwise"])

p("P25", "Extreme values and shapes neither crash nor leave traces",
  "Whatever joint positions, velocities, origins, masses and limits a robot is given (NaN, infinite, subnormal or huge) and whatever its shape (no movable joint, a single node, hundreds of levels or children), no position or origin setter, update, query, display, clone or IK call panics or fails to return, unchecked positions and origins are stored exactly, and setting one joint leaves the others alone. Once all positions, origins and velocities are ordinary again, updates give the same transforms and velocities as for a robot that never had extreme values.",
  ["inputs", "histories", "configurations"], "all values of the scalar type in every place the API takes one (limits with min <= max), all trees up to 1000 levels or children",
  "Tests use ordinary numbers on small robots.",
  ["src/joint/joint.rs", "src/chain.rs", "src/ik.rs", "src/funcs.rs", "src/node.rs"],
  [("caches are reset by every setter", "src/joint/joint.rs"), ("iterations of the solver are bounded", "src/ik.rs"), ("recursion over ancestors", "src/node.rs")],
  ["return of every call", "positions, transforms and velocities after ordinary values were set"])

p("P26", "Trees may be restructured while other threads use them",
  "When several threads attach and detach subtrees of their own below nodes they share, while others iterate, update, display or copy chains of the shared nodes, nothing deadlocks or panics, no connection is lost, duplicated or made twice, and every shared node keeps its place. Each thread sees its own changes at once (parent, children, ancestors, and, as far as no other thread updates the same nodes, poses), and when all threads have ended, the parent and child relations are those each thread established, its children in the order in which it attached them.",
  ["schedules", "histories"], "all interleavings of set_parent / remove_parent on disjoint subtrees below shared nodes with updates and queries",
  "All tests are single threaded and never change a tree after building it.",
  ["src/node.rs", "src/chain.rs", "src/iterator.rs"],
  [("set_parent/remove_parent take one lock at a time", "src/node.rs"), ("iterators copy the list of children", "src/iterator.rs"), ("fmt_with_indent_level does not hold a parent's lock", "src/chain.rs")],
  ["Node::parent, Node::children, Node::iter_ancestors, poses, wait-for graph of the node locks"])

p("P27", "Builders and constructors make exactly what they were told",
  "A joint, node, link or link element made by a builder or constructor has exactly the name, type, origin (translation and rotation, whichever is given first), limits, mass, inertia, geometry, visuals and collisions given, in the order given, and the documented default for whatever was not given: an unlimited fixed joint at the identity without velocity and link. Setting the origin of a link element discards its world transform and clearing it keeps the origin; copies are independent; a range contains exactly the values between its ends, inclusive, clamps to the nearest of them, and is refused with its ends reversed; a mimic maps x to multiplier times x plus offset.",
  ["inputs", "configurations"], "all orders and repetitions of builder calls with all values",
  "Tests build nodes by one fixed sequence of calls and do not look at the result.",
  ["src/node.rs", "src/link.rs", "src/joint/joint.rs", "src/joint/range.rs", "src/joint/mimic.rs", "src/joint/velocity.rs", "src/ik.rs"],
  [("NodeBuilder", "src/node.rs"), ("LinkBuilder", "src/link.rs"), ("Inertial/Visual/Collision setters", "src/link.rs"), ("Range", "src/joint/range.rs")],
  ["every public accessor of the value made"])

p("P28", "Names and the way of construction have no influence on the numbers",
  "What a robot computes depends on its structure and values alone: two robots with the same tree, joint types, axes, origins, limits, positions, velocities, mimic relations and link data give bit for bit the same transforms, velocities, Jacobians, centers of mass, link transforms, setter results and inverse kinematics results under the same calls, whatever their joints and links are called (also if names are empty, repeated or exchanged), in whatever order and by whatever calls the nodes were created and connected (as long as each node's children were attached in the same order) or copied, and whatever other robots, even ones with the same names and positions, are used in between. Names matter only where they are asked for: finding a joint, ignoring joints in inverse kinematics, texts and error messages.",
  ["inputs", "histories", "configurations"], "all robots, all ways to name their joints and links, all orders and ways of construction, all histories of setters, updates, queries and solves",
  "Tests build one robot in one way with distinct names and never compare two that should be the same.",
  ["src/chain.rs", "src/node.rs", "src/funcs.rs", "src/ik.rs", "src/joint/joint.rs"],
  [("nodes are compared by identity", "src/node.rs"), ("children and mimic children are kept by node", "src/node.rs"), ("ignored joints are the only use of names in a solve", "src/ik.rs")],
  ["every number read from two robots which differ in names or construction only"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
