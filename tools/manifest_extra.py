PARSE = 'TLA+ parser machine (Parse.tla, Types.tla, Css.tla, Text.tla, Dom.tla) run by TLC on every document; exhaustive document families and random documents parsed by the crate are compared with it node by node'
PN = 'Every document of the enumerated family (sizes in the evidence) is checked on the specification and replayed; larger documents are sampled. What an XML parser, a CSS tokenizer and the value types read in the source is taken from roxmltree, simplecss and svgtypes.'
for i in ('P01', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08'): T[i] = (PARSE, PN)
T['P02'] = ('TLA+ outcome machine (OutcomeTrace.tla, Parse.tla): the answers of the crate to generated and broken texts validated with TLC', 'Sampled texts (thousands per run: edited documents, broken values and style sheets, deep nesting), one verdict each; no proof over all strings. Known finding: nesting of 25000 levels.')
T['P07'] = ('TLA+ whitespace specification (Text.tla) with invariants checked by TLC over all text units of the scope; every unit replayed through the parser, random documents validated', PN)
T['W01'] = (W + '; the families of MCWriter.tla are enumerated and replayed', 'All documents of the enumerated families and all sampled documents and histories are compared character by character with the output the specification derives.')
T['W02'] = ('parsed documents written, parsed and written again by the crate; TLC decides on the recorded run with ParseTrace.tla (AgainFacets)', PN + ' Known finding: & in text.')
T['W03'] = ('TLA+ writer machine and XML reader (Writer.tla, Reader.tla): invariant that all option combinations carry the same content, checked by TLC over enumerated trees; outputs of the crate compared with it and read back', PN)
T['W04'] = ('TLA+ writer machine and XML reader (Writer.tla, Reader.tla): reading back what is written gives the original strings, checked by TLC over enumerated strings and replayed; outputs of the crate read by an XML parser and judged by TLC', PN + ' Known finding: & in text.')
T['W05'] = ('TLA+ Writer.tla computes Debug/Display of nodes, attributes, values and ids; histories and value tables validated with TLC', T['W01'][1])
T['W06'] = ('TLA+ writer machine (Writer.tla) with the values spelled by the value types under the same options; outputs validated with TLC', PN)
TB = 'the tables of the crate (all ids, all attributes, thousands of other strings, all conversions) recorded and judged by TLC against the tables of the specification (Names.tla, Types.tla, TableTrace.tla)'
for i in ('T01', 'T02', 'T03', 'T04'): T[i] = (TB, 'Complete over all ids, attributes and value types; sampled over other strings. The tables of the specification were written from codegen/*.txt and the SVG 1.1 text.')
NA = {}
