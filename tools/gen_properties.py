#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mechanism, **kw):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=files[0])], **kw)))

H, I, C = "histories", "inputs", "configurations"
HQ = "every finite sequence of public DOM calls on one document (creating, moving, linking, copying and removing nodes)"
DW = "tests/domapi.rs runs a few fixed call sequences of at most a handful of calls; the guarantee is about every history, including moves of already adjoining nodes and operations on free nodes."
PQ = "every XML document accepted by the XML parser"

p("D01", "The nodes form one consistent ordered forest after any edit history",
  "After any sequence of append, prepend, insert before/after, detach, remove, drain and copy calls, the parent, first/last child and previous/next sibling of every node describe one ordered forest: every node is listed exactly once, by the parent it reports, and there are no cycles. Each move puts the node exactly where it was asked for (also when it is already a neighbour of that place) together with its whole subtree, and changes the place of no other node.",
  [H], HQ, DW, ["src/tree.rs"], "Node::append/prepend/insert_after/insert_before/detach rewrite parent, child and sibling pointers by hand with strong/weak references.")
p("D02", "Every traversal reports exactly the nodes of the tree, in document order",
  "For every tree and every start node, children, descendants, traverse, ancestors, preceding and following siblings visit exactly the nodes the tree structure defines, each once and in document order, and the double-ended ones give the same items however calls from the two ends are mixed. root, has_parent, has_children, first/last child and svg_element agree with that structure.",
  [H, "programs"], "every tree reachable by DOM calls, every start node, every interleaving of next and next_back",
  "Tests traverse parsed documents only forwards and from the root; back-to-front and mixed iteration and sub-tree starts are hardly tried.",
  ["src/tree.rs", "src/node.rs", "src/document.rs"], "Traverse/Children double-ended iterators with next/next_back meeting detection; root() and has_parent() walk parents.")
p("D03", "A node can never be inserted into itself or into its own subtree",
  "append, prepend, insert_before and insert_after refuse (panic) when the inserted node is the target itself or one of its ancestors, and the refused call leaves every node exactly as it was. Every other insertion is accepted.",
  [H], "every tree, every pair of nodes, all four insertion calls", "Tests never try an ancestor; a cycle shows up only as a hang or leak much later.",
  ["src/tree.rs"], "assertions at the start of the four insertion calls, before anything is detached.")
p("D04", "Links and back-references always agree",
  "At every moment, the users listed by linked_nodes (and counted by uses_count / is_used) of a node are exactly the elements that hold a link, func-link or paint attribute to it, one entry per such attribute. This holds after any mix of setting, overwriting, removing, copying and node removal.",
  [H], "every history of attribute and node operations, any number of links between the same two nodes, any attribute name",
  "The symmetric relation spans two nodes and is broken only by particular overwrite / removal orders; tests look at a few of them.",
  ["src/node.rs", "src/document.rs", "src/parser/mod.rs"], "set_link_attribute pushes a back-reference, remove_attribute and remove_node take exactly one away.")
p("D05", "A link without an id or closing a cycle is refused and changes nothing",
  "set_attribute_checked with a link fails with ElementMustHaveAnId when the target has no id, and with ElementCrosslink when the two elements have the same id or when the target already links to this element; otherwise it succeeds. A failed call leaves all attributes and links of all nodes untouched, and set_attribute panics in exactly these cases.",
  [H], "every pair of elements, every attribute name, every previous value and every existing link structure",
  "Tests cover one crosslink; they never check that the previous value and both link lists survive a refused call.",
  ["src/node.rs"], "set_link_attribute checks before it removes the previous value.")
p("D06", "Attributes behave as an ordered map with unique names",
  "An element never has two attributes with the same name; after setting a value that value is read back with the variant its name requires (href: link, fill and stroke: paint with its fallback, any other: func-link), it is listed last, and all other attributes keep their values and relative order. Removing an attribute removes only it, and set_attribute_if_none changes nothing when the attribute exists.",
  [H], "every sequence of attribute calls with SVG and custom names on one element", "Tests check single set/get pairs; order and overwriting across kinds of values are not covered.",
  ["src/attributes.rs", "src/node.rs", "src/attribute.rs"], "set_attribute removes the old attribute and inserts the new one; Attributes is a Vec searched by name.")
p("D07", "Removing a node leaves no trace of its subtree in the document",
  "remove_node takes the node and all its descendants out of the tree and marks all of them as removed; afterwards no remaining element has an attribute that links to any of them and no remaining node lists any of them as a user. Everything else - the other attributes, the order of the remaining nodes and their links - stays as it was.",
  [H], "every document state and every node in it, including links inside, into and out of the subtree and several links between the same nodes",
  "Tests remove single linked elements; nested link patterns are an exponential space.",
  ["src/document.rs"], "Document::_remove recursively drops outgoing links, attributes of linked nodes, then detaches.")
p("D08", "Draining removes exactly the topmost matching nodes below the start node",
  "drain visits the nodes below the given node in document order, removes every node the predicate accepts together with its subtree (as remove_node does), never looks inside a removed subtree, never removes the start node itself, and returns how many nodes were accepted. All other nodes stay.",
  [H, I], "every tree, every start node and every predicate", "Tests drain two small documents; sibling/nesting patterns around removed nodes are what breaks the walk.",
  ["src/document.rs"], "_drain keeps the next sibling before removing and recurses into rejected nodes.")
p("D09", "Copies are faithful, fresh and independent of the original",
  "copy_node gives a new free node of the same type, tag, text and attributes (links included and registered with their targets) but without id and children; copy_node_deep does it for the whole subtree in the same order. The original and all other nodes, apart from the users of linked elements, are unchanged.",
  [H], "every node of every document state", "One test copies one node; the copy of links and of deep mixed content is not observed.",
  ["src/document.rs"], "copy_node re-sets every attribute on a new element; _make_deep_copy recurses over children.")
p("D10", "Every call changes only what it names",
  "Creating a node gives a free, empty node of the requested type that belongs to the document; type, tag name, id, text, attributes and removed-flag of a node change only through a call made on that node (or its removal, or the removal of a linked node). set_tag_name, set_id and set_text replace exactly that value.",
  [H], HQ, "A test asserts what a call should change; it does not look at all the nodes that must not change.",
  ["src/node.rs", "src/document.rs", "src/tree.rs"], "per-node data in RefCells behind shared handles.")
p("D11", "Dropping a document and its handles frees every node",
  "Once a document and all node handles taken from it are dropped, all memory allocated for its nodes is released, whatever links, cycles of links, removed, free or copied nodes it had. While a handle outlives the document, that node is detached, without attributes and without links.",
  [H], HQ + ", then dropping the document before, between or after the handles",
  "No test measures it; reference cycles between linked nodes are invisible to assertions on values.",
  ["src/document.rs", "src/tree.rs"], "nodes are Rc based and kept in a storage; Drop for Document clears attributes and links and detaches.")

p("P01", "Parsing keeps exactly the SVG content of the document",
  "The parsed tree contains, in the same order and nesting, every element of the SVG namespace with a known name whose ancestors were all kept, every comment, and every text with a non-whitespace character inside them (whitespace-only text only directly inside text, tspan and tref); style elements, other elements with everything inside, and processing instructions leave nothing.",
  [I], PQ, "Tests parse short documents; combinations of namespaces, unknown and style elements, comments and text at any nesting are unbounded.",
  ["src/parser/mod.rs"], "process_node recursion; drain of style elements after parsing.")
p("P02", "Any text is either parsed or refused with an error, never a crash",
  "For every input string parsing returns a document or an error and never panics: malformed XML gives an XML error, and a document is refused with NoSvgElement exactly when its first kept element is not an svg element or there is none. A successfully parsed document can always be written.",
  [I], "every string", "Tests use a handful of malformed documents.",
  ["src/parser/mod.rs", "src/parser/text.rs", "src/error.rs"], "roxmltree errors are converted; the first SVG element below the root is checked.")
p("P03", "Only known attributes of the known namespaces are stored, ids apart",
  "Each kept element gets exactly its attributes that are in no namespace or in the SVG, XLink or XML one and have a known SVG name and a valid value, plus what CSS contributes; id is stored as the node's id, class and style are not stored, and a later attribute with the same local name replaces an earlier one. No attribute is invented and none is moved to another element.",
  [I], PQ, "Tests list a few attributes; namespaces with clashing local names are not combined.",
  ["src/parser/mod.rs", "src/names.rs"], "namespace filter, AttributeId::from_str, parse_svg_attribute.")
p("P04", "Presentation values follow the CSS cascade",
  "For each element and presentation attribute (and transform) the value that ends up in the tree is the last valid one in the order: XML attributes, then declarations of matching CSS rules by ascending selector specificity and source order, then the style attribute - also when the values are links or identity transforms. Other properties in CSS and style are ignored, and marker in a style sheet sets marker-start, marker-mid and marker-end.",
  [I], "every combination of attributes, any number of style sheets and rules, and style attributes on any element", "tests/css.rs checks single overrides; ties, several sheets, links and invalid declarations in between are combinatorial.",
  ["src/parser/mod.rs"], "attributes, then sheet rules in specificity order, then style are applied one over the other; links are resolved later.")
p("P05", "CSS rules apply exactly to the elements their selectors match",
  "A rule of any style sheet (except those with a type other than text/css) changes exactly the kept elements that its selector matches by type, class, id, attribute operators, first-child, and descendant, child and adjacent combinators, evaluated on the original XML (unknown elements included).",
  [I], "every selector of the supported grammar against every element of every document", "tests/css.rs has one document per selector kind.",
  ["src/parser/mod.rs"], "simplecss::Element for XML nodes: parent_element, prev_sibling_element, attribute_matches, pseudo_class_matches.")
p("P06", "References resolve to the first element with that id, or to the fallback",
  "Every reference (href, url() in fill, stroke, clip-path, filter, mask, markers) becomes a link to the first element in document order with that id, wherever it is; unresolved ones become the given paint fallback, else none for fill and a plain string for others. A reference of an element to itself, back to an element that already links to it, or with an empty id is dropped, and all resolved links are registered with their targets.",
  [I], "every document with any number of elements, ids (also repeated) and references in any order, from attributes and CSS", "Tests have one or two references each.",
  ["src/parser/mod.rs", "src/node.rs"], "links are collected during parsing and resolved at the end in order.")
p("P07", "Text whitespace follows xml:space across all nested text nodes",
  "Where xml:space is default, tabs and line breaks become spaces and the text nodes below one text element (or below any other outermost element with text of its own), read in order, contain no leading, trailing or double spaces, and none is lost between words (of two nodes that share a space, the less nested one, else the later one, keeps it); where it is preserve, the text is kept but for tabs and line breaks turned into spaces. xml:space is taken from the nearest ancestor-or-self that has it, text nodes that become empty are removed, and no xml:space attribute is added.",
  [I], "every nesting of text nodes, tspan-like elements, comments and xml:space values", "tests/text.rs has about 40 fixed documents; the pairwise space removal depends on the whole sequence of text nodes.",
  ["src/parser/text.rs"], "trim per text node, then pairwise processing over collected text nodes; temporary xml:space attributes.")
p("P08", "Every attribute value is stored with the type its attribute requires",
  "For every known attribute and every value, the stored value has the type SVG gives to that attribute on that element (length, number, list, color, paint, transform, path, keyword, string, ...) and equals the trimmed source value; opacities and k1-k4 are limited to 0..1. A value that is not valid for the attribute, an empty number list, length list or path, and an identity transform is not stored, and never affects other attributes.",
  [I], "all known attributes on all known elements and all values", "Tests check about 20 attribute/value pairs of 266 attributes and 80 elements.",
  ["src/parser/mod.rs"], "_parse_svg_attribute_value dispatch by attribute and element id.")

p("W01", "Writing emits the tree exactly, attributes in canonical order",
  "The output contains exactly the nodes below the root in document order, properly nested; each element has its id first, then SVG attributes in the fixed name order, then custom attributes in their own order, each once with its current value. Only svg elements directly below the root declare the SVG namespace, and the XLink one exactly when something inside uses href (written xlink:href; space is written xml:space).",
  [H, I], "every tree built by parsing or DOM calls", "Writer tests compare about 30 fixed documents.",
  ["src/writer.rs", "src/attribute_value.rs", "src/name.rs"], "write_dom over traverse(); write_attributes sorts SVG attributes by enum order.")
p("W02", "Writing a parsed document and parsing it again gives the same document",
  "Parsing the output of a parsed document (without indentation, or with it when, outside of text elements, no space is preserved, no element with a text of its own has another text below it, and no tspan or tref wraps a text in another element) gives the same tree: same nodes, ids, texts, attribute values (numbers as written) and link structure, up to the order of attributes and adjacent text nodes being joined. Writing that again gives the same string.",
  [I, C], "every parsed document and all write options", "Tests compare outputs with literals and never parse them again.",
  ["src/writer.rs", "src/parser/mod.rs", "src/parser/text.rs"], "escaping and value formatting in the writer against typing, IRI resolution and whitespace processing in the parser.")
p("W03", "Write options change only quotes and whitespace",
  "For every tree, outputs under different quote and indentation options have the same nodes, attributes, attribute order and values, differing only in the quote character and in whitespace between nodes and attributes. Nothing is indented and no line break is added inside a text element, and without indentation no whitespace is added anywhere.",
  [I, C], "every tree and every combination of quote, indent and attribute indent", "Tests use one document per option.",
  ["src/writer.rs"], "options are passed to xmlwriter; preserve_whitespaces is switched on and off at text elements.")
p("W04", "The output is always well-formed XML that carries the original strings",
  "For every tree with one top element and legal, distinct names, ids, attribute values and texts with quotes, <, &, spaces or any character that XML allows are written so that an XML parser accepts the output and reads back exactly these strings.",
  [I], "all strings of XML characters without control characters in ids, attribute values and texts", "Tests escape one quote character and one <.",
  ["src/writer.rs"], "quotes are escaped by xmlwriter, & and < in values by the writer, < in text by xmlwriter, unicode as character references.")
p("W05", "Debug and Display of nodes and attributes describe the node",
  "Display of an element shows its tag, id and attributes in stored order, Debug adds the ids of its users, text and comment nodes show their text; Display of an attribute is name='value' with href and space shown as xlink:href and xml:space, and links as #id or url(#id) with their fallback.",
  [H, I], "every node state", "tests/debug.rs prints three nodes.",
  ["src/writer.rs", "src/attributes.rs", "src/attribute.rs", "src/attribute_value.rs", "src/name.rs"], "fmt implementations of NodeData, Attributes, Attribute, AttributeValue and QName.")

p("T01", "Element and attribute names map to ids and back without loss",
  "Every SVG element and attribute name maps to an id that prints as exactly this name, different names map to different ids, and no other string maps to any id. Ids are ordered alphabetically by name, letter case ignored.",
  [I], "all strings", "Tests use about 20 of 350 names; the tables are perfect hashes in which one wrong entry or displacement is invisible.",
  ["src/names.rs", "codegen/attributes.txt", "codegen/elements.txt"], "generated perfect-hash tables.")
p("T02", "Element and attribute classes are those of the SVG specification",
  "For every element id the ten element classes (referenced, shape, container, text content, graphic, gradient, paint server, filter primitive, ...) and for every attribute the nine attribute classes (presentation, inheritable, core, events, ...) are exactly the documented sets; non-elements and custom names are in none.",
  [I], "all ids of all elements and attributes, custom names and other node types", "No test queries more than a few.",
  ["src/element_type.rs", "src/attribute_type.rs"], "match tables.")
p("T03", "Default values are those of the SVG specification",
  "For every presentation attribute the library knows a default for, it is the initial value SVG 1.1 defines, with the type the parser would give it; all other attributes have none. Attribute::new_default agrees with it.",
  [I], "all attributes", "Tests look at none or few of them.", ["src/attribute_value.rs", "src/attribute.rs"], "AttributeValue::default_value match table.")

p("T04", "Conversions into attribute values and type queries give exactly the right type",
  "Converting a Rust or SVG value into an AttributeValue (or Attribute::new) keeps that value and gives it exactly the matching type; a node becomes a Link under href, a Paint under fill and stroke, and a FuncLink under any other name; of the is_* queries of an attribute value exactly the one for its type answers true (is_none, is_link, is_func_link, is_paint, ... alike), and the same queries on an Attribute agree with it.",
  [I], "all value types, all conversions, all attribute names", "Tests use the conversions without ever asking for all the other types.",
  ["src/attribute_value.rs", "src/attribute.rs"], "From implementations and is_* queries generated by macros.")
p("W06", "Value write options change only the notation of values",
  "Under every combination of value write options (short colors, leading zeros, compact paths, joined arc flags, repeated and implicit commands, simplified transforms, list separator) each attribute value, also the color of a paint fallback, is written exactly as the value type itself is written with these options, and everything else in the output stays as it is without them. Document::to_string is the output with the default options.",
  [I, C], "every parsed document, every value type, every combination of value options", "tests/write.rs does not combine them with documents.",
  ["src/writer.rs", "src/attribute_value.rs"], "WriteOptions::values is passed down to every value type.")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
