claim("P01", PATH,
 "Every path of every function reachable from the parsing entry point, over all abstract token sequences, is covered; nil dereferences, bounds, assertions and explicit panics are discharged one by one, the tokenizer over linear expressions of its position. Trusts go/types and x/tools/go/ssa. Stack exhaustion by very deep nesting and memory exhaustion are outside it.")
claim("P02", "progress analysis of every loop and of every call cycle on the SSA form",
 "Each loop must be bounded or consume on every back edge, each recursion must have a consumed token in between. Cost bounds (time linear in input) are not claimed.")
claim("P03", PATH + "; typestate of failed calls",
 "On every path to success no failed consuming call is left unreported unless the saved state was restored. Trusts the error convention (a non-nil error result means failure).")
claim("P04", PATH + "; typestate of consumed tokens and results",
 "Decides: success only at end of input, absent means nothing consumed, every result kept, every token compared or kept. Whether a kept value is stored in the right field is P14's and P11's concern.")
claim("P05", PATH + "; typestate of saved states and effect analysis of parser fields",
 "Restores only restore states saved from the same lexer, lookahead functions give back every token on every path, and everything parsing changes is in the saved state or independent of it.")
claim("P06", "abstract interpretation of the tokenizer over linear position expressions and byte sets",
 "All paths of the tokenizer's step, with inferred loop invariants. Trusts the models of utf8.DecodeRuneInString, unicode.IsSpace and a few strings functions.")
claim("P08", PATH + " of every node method for every node shape the parser can build",
 "Roots are all methods of all node types, for each combination of nil/non-nil/empty fields that the parse functions can leave, plus the walk for each. Trusts that shapes are built only by the parser.")
claim("P09", "tree interpretation: path-sensitive count of the visits to each child place",
 "For every node type and every place a child can sit in (list elements one by one), each traversal is interpreted over all states of the fields; loops are split at the fixed element. A construct the interpreter gives up on is listed as undecided in the evidence.")
claim("P10", "tree interpretation of every Accept method and visitor forwarder",
 "As P09, with the error results of the visitor tracked. A construct the interpreter gives up on is listed as undecided in the evidence.")
claim("P11", "tree interpretation of every FormatSQL method over the node shapes the parser can build; comparison of what is written when a part is present and absent",
 "For every node type, every recorded part (child, list element, name, literal, flag, enumeration value) and both output modes, all states of the fields. Shapes come from the parse analysis (a second pass tells fields apart that decide a report). Fields that the parser never sets are listed. Trusts that a nested node's own method writes it (decided at that node); loops of a form that is not followed are listed as undecided.")
claim("P07", "flow analysis of token text into comparisons; keyword table cross-check",
 "Every comparison, switch, table lookup and slices/strings search that token text reaches (through fields, calls, lists and closures) is judged by the letter case the text was folded to; every word asked of a keyword token is looked up in the tokenizer's table. A mixed-case word that is no keyword (a function or type name such as dictGet, Tuple) may be compared exactly: those are case-sensitive names in ClickHouse. Trusts the models of strings, slices and the Set type.")
claim("P15", "effect analysis: stores, appends, map ranges, ambient reads and package state reachable from the API",
 "Every function reachable from formatting, walking, visiting, positions and parsing (static calls, closures, and all implementations for interface calls). Writes to memory that a tree root can reach are found by following values, not by name. Trusts the list of external functions without effects.")
claim("P16", "effect analysis of the call graph: external calls, goroutines, channel operations, unsafe, cgo, linkname",
 "Every exported function and method of the library packages; an external call that is not on the list of effect-free functions is reported. User callbacks and visitors are outside.")
claim("P20", "evaluation of the operator functions under an assumed current token, all operators, all paths",
 "Binding strengths come from evaluating the strength function for every operator token the grammar knows (tokens the functions compare with, and the negated forms with the next token assumed); operand limits from the recursive calls that parsing each operator makes. Chained operators are covered because the loop's stopping condition is checked against all three orders of strength and limit.")
claim("P18", "obligations per error-returning site of the parsing entry points; linear-fact evaluation of the line table; nil and bounds obligations of the rendering",
 "Every error an entry point returns is traced to the finishing step (a structured error whose offset, line and column come from one recorded offset); the line table and the rendering are evaluated over linear facts. An entry point is an exported parser method that the parser does not itself call as a step.")
claim("P19", "path enumeration of the command's main with output, exit and error-test events",
 "Every path of main and its helpers: reads, parse, option tests, prints. Trusts models of os, io, flag, fmt and encoding/json.")
claim("P17", "dataflow of values into position slots over the SSA form; path-sensitive slot state from the parse interpretation; order of taking and reading",
 "Every store into a position slot, every node kept, every Pos and End, every nested step. That a slot holds the position of the right token is decided by order rules (taken before or after which part is read), not by comparing with text; end positions that the golden files pin at a wrong place are known findings.")
claim("P13", "tree interpretation of every FormatSQL method in both modes with lists of fixed length; summaries of the output methods; evaluation of token-to-tree stores",
 "For every node type and every state of its fields, with lists of length 0 to 3: the same items in the same order in both modes, and no two words glued (an item pair that depends on what an interface holds is judged by the types stored there). The output methods are followed on all paths in each mode. Quotes are compared with what the tokenizer reads; every store of a token's text into the tree is judged by the token kinds possible there. Items that a longer list would only show, and functions listed as undecided in the evidence, are not judged.")
NA = {}
claim("P14", "comparison of the words read and the marks left on all ways through each input-dependent branch of the parser (path enumeration to the meeting place, symbolic values)",
 "Every branch of every reading function that depends on the input, every result of a reading step, and every value handed to a step. A branch with more than 6000 ways is listed as partly enumerated (none on this tree). Two steps that return the same kinds of node with the same fixed texts count as the same part; parts of different kinds are taken to be told apart. AS, = and commas, and the brackets of USING, carry no meaning; ASC/ASCENDING and DESC/DESCENDING are one word.")

claim("P12", "comparison of the item pairs each FormatSQL method can write (tree interpretation) with the pairs of reading events that can follow each other on the interprocedural control flow of the parser",
 "For every node type: each word that is written is read where the node is parsed; each two items written one after the other (lists of length 0 to 3) can be read one after the other; the last can be the last. What is read around a node is over-approximated (the functions that make or fill it and, in others, the ways from where a part is made to where it is handed over; widened in up to three steps for the few nodes with words read further away), so a wrong pair that happens to be readable elsewhere on those ways is missed; pairs of quotes and items inside nested nodes are judged at those nodes. It does not decide that the whole text parses back to an equal tree.")
NA["P90"] = "Equality of the tree with the tree of its own text quantifies over whole trees and over the composition of two 10,000-line recursive programs; a static argument would need an inverse of the grammar. The parts a static argument does reach are claimed separately: nothing recorded is omitted (P11), every adjacent pair that is written can be read (P12), tokens stay apart and content is untouched (P13), optional syntax leaves a mark (P14)."
NA["P91"] = "Running time is a runtime quantity: backtracking attempts nest, and bounding how often the same text is read again needs a cost analysis over all nestings of attempts, for which no sound static argument is in reach here. P02 claims that parsing ends."
NA["P92"] = "The depth of recursion is given by the input and the library has no depth limit to check; Go grows stacks to 1 GB, so exhaustion depends on the runtime. There is no construct to decide: the property is simply not implemented."
NA["P93"] = "There is no statement of ClickHouse's grammar or meaning in this sandbox to compare with."
