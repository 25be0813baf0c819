p("P01","Parsing never panics",
  "For every input text, parsing either returns a list of statements or returns an error. It never panics: no nil dereference, out-of-range access, failed type assertion or explicit panic is reachable from the parsing entry points, in particular when the input stops in the middle of any construct.",
  ["inputs"],"every input string, including every truncation of every statement form",
  "Tests feed a few hundred whole statements and a short list of malformed ones; a panic needs end of input (or an unexpected token) at one of some 600 places where the next token is inspected.",
  PARSE,"current()/peekToken()/consumeToken() and every use of the token they yield; optional sub-parsers returning nil")
p("P02","Parsing terminates: every loop and recursion consumes input",
  "Every parse finishes: no repetition in the lexer or the parser can go round, and no grammar rule can re-enter itself, without having consumed at least one more token (or byte) of the input. At the end of the input all repetition stops.",
  ["inputs"],"every input string",
  "A non-advancing loop shows only on the token sequence that enters it; tests stop at the sequences they list and would hang rather than report.",
  PARSE,"for loops in the parse functions, lexer scanning loops, mutual recursion of the expression and query grammar")
p("P03","No failure while reading a statement is swallowed",
  "Whenever a component of a statement cannot be read (a required word or symbol is missing, an operand is malformed, the text cannot be tokenised), the whole parse reports an error; it never carries on as if that component had been read. The only exception is an attempt whose consumed input is completely given back before another reading is tried.",
  ["inputs"],"every input string, at every failing step",
  "The negative tests are a fixed list of invalid statements; each of the ~700 error-returning call sites is its own way to lose an error.",
  PARSE,"error results of the sub-parsers; consumeToken errors; wrapError at the entry point")
p("P04","Success means the whole input was read",
  "A successful parse has accounted for every token of the input: each token belongs to a returned statement or is a statement separator, and nothing after the last statement is left unread or ignored. A construct that is reported as absent has consumed nothing, and a construct that was read is kept rather than discarded.",
  ["inputs"],"every input string that parses successfully",
  "Tests check the trees they list; text that is accepted and then ignored is only visible for the input that contains it.",
  PARSE,"ParseStmts/parseStmt end-of-statement test; tryParse* functions; results of sub-parsers")
p("P05","Speculative reading leaves no trace",
  "When the parser looks ahead or abandons an attempted reading, it continues exactly as if the attempt had not been made: position and current token are those from before the attempt, on every path including failing ones. Looking ahead by itself never changes what is parsed next.",
  ["inputs"],"every input string and every lookahead or abandoned attempt in it",
  "The effect of a missing restore shows only for inputs where the attempt fails at that particular point and the continuation depends on it.",
  ["parser/lexer.go","parser/parser_common.go","parser/parser_query.go","parser/parser_column.go"],"saveState/restoreState pairs, peekToken, tryConsumeKeywords, the INTERVAL retry and its memo")
p("P06","Tokens are exact slices of the source text",
  "Every token's text is exactly the source text between its recorded start and end offsets, tokens appear in source order without overlapping, and between two tokens only white space, comments and the delimiting quotes are skipped. Reading never goes beyond the end of the input.",
  ["inputs"],"every input string",
  "Lexer tests compare a few dozen tokens; offsets and bounds are arithmetic over arbitrary input bytes.",
  ["parser/lexer.go","parser/helper.go"],"consumeToken/consumeNumber/consumeIdent/consumeString, peekOk-guarded peekN/slice/skipN")
p("P07","Keywords are recognised in any letter case, and are registered",
  "A keyword of the grammar is recognised regardless of letter case, everywhere it may appear. Every word the grammar looks for as a keyword is one the lexer classifies as a keyword, and every reserved word is a keyword.",
  ["inputs"],"every keyword occurrence and every letter-case variant of it",
  "Tests are written in a single case, mostly upper case; an exact comparison passes all of them.",
  PARSE+["parser/keyword.go"],"matchKeyword/EqualFold/ToUpper comparisons; keywords and reservedKeywords sets")
p("P08","Every tree the parser returns is safe to use",
  "For every tree returned by a successful parse, asking any node for its start or end position, formatting it in either mode, walking it, and visiting it with a visitor complete without a panic, whichever optional parts the statement has or lacks.",
  ["inputs"],"every tree that parsing can return, over all combinations of present and absent optional parts",
  "There are about 200 node kinds with up to 20 optional parts each; tests exercise a few combinations per kind.",
  AST+["parser/format.go","parser/walk.go"]+PARSE[1:],"Pos/End/Accept/FormatSQL methods and Walk, against the field values the parse functions can leave in a node")
p("P09","Walking reaches every node",
  "Walking a tree calls the callback with each node before its descendants, and reaches every child node held anywhere in a node (directly, in lists, or inside helper records) exactly once, for every kind of node. When the callback says stop, no descendant of that node is reported and the walk reports that it was stopped; searching (first match, all matches, stoppable walk) inherits this.",
  ["inputs","programs"],"every kind of node, every combination of present children, every callback answer",
  "The existing drift test compares two traversals by name; neither is compared with the data the nodes really hold, and paths that skip a child conditionally are not seen.",
  ["parser/walk.go"]+AST,"Walk's type switch and its helpers, WalkWithBreak, Find, FindAll versus struct fields")
p("P10","Visiting reaches every node and propagates failures",
  "Accepting a visitor on any node enters the node, visits every child node it holds exactly once, calls the visitor's method for that node kind exactly once with that node after its children, and leaves the node on every exit. An error returned for a child or by the visitor's method is returned to the caller and stops the visit.",
  ["inputs","programs"],"every kind of node, every combination of present children, every visitor",
  "Tests visit a handful of node kinds; a missing or conditional child visit is invisible unless that child is asserted on.",
  AST+["parser/ast_visitor.go"],"Accept methods versus struct fields; ASTVisitor and DefaultASTVisitor")
p("P11","Formatting omits nothing the tree records",
  "Formatting a parsed statement, or any node of it, writes out every element its tree records: every child node, every name, literal and option flag held by a node appears in the output whenever it is present, whatever other parts are present or absent and in both output modes.",
  ["inputs"],"every tree that parsing can return, both output modes",
  "Golden files pin specific statements; an element that is skipped only in a certain combination of clauses never shows there.",
  ["parser/format.go"]+AST,"FormatSQL methods versus the fields of each node")
p("P12","Formatted text uses the grammar the parser reads",
  "For every kind of node, the keywords, punctuation and component order that formatting produces are ones the parser accepts for that kind of node: formatting never produces a word, symbol or clause order for a construct that parsing that construct does not have.",
  ["inputs"],"every kind of node and every adjacent pair of emitted elements",
  "Reparse tests cover the listed statements only; a wrong separator or clause order shows only with the right pair of optional clauses.",
  ["parser/format.go"]+PARSE[1:],"literal text written by FormatSQL versus tokens consumed by the parse functions that build the node")
p("P13","Both output modes write the same tokens, text content untouched",
  "The compact and the beautified output of a statement consist of the same sequence of tokens and differ in white space between tokens only. The content of string literals and of quoted names is written byte for byte, with the same kind of quote, in both modes.",
  ["inputs","configurations"],"every tree that parsing can return, every indentation setting",
  "Beautify goldens pin particular layouts; literals containing line breaks or unusual bytes and mode-dependent branches need specific inputs.",
  ["parser/format.go"],"Formatter.WriteString/WriteByte/Break/NewLine, mode tests, Ident/StringLiteral output")
p("P14","Optional syntax that is read is recorded",
  "Two statements that differ in an optional keyword or option do not parse to the same tree: whenever the grammar reads an optional word or clause that changes meaning, the returned tree is different from the tree obtained without it. Only words documented as noise (such as an optional AS or TABLE) may leave no mark.",
  ["inputs"],"every optional keyword or clause in every statement form",
  "Goldens pin trees, they do not compare pairs; a modifier that is read and dropped looks like a correct tree.",
  PARSE[1:],"tryConsumeKeywords/tryConsumeTokenKind branches and the fields they set")
p("P15","Formatting and traversal never modify a tree; parsers are independent",
  "Formatting, walking, visiting and position queries leave the tree and all shared data unchanged, so they may be repeated and run concurrently. Parsing, formatting and traversal use no mutable state shared between parser or formatter instances, and their results do not depend on anything but their input (no map-iteration order, time, randomness or environment).",
  ["schedules","inputs","histories"],"any number of goroutines with separate parsers or formatters, any order of calls",
  "Races and order dependence need concurrent or repeated use; tests are single-threaded and single-shot per tree.",
  ["parser/format.go","parser/walk.go"]+AST+["parser/keyword.go","parser/set.go"],"stores to AST fields and package variables reachable from the API; map ranges; imports with ambient effects")
p("P16","The library has no effect outside its results",
  "The parsing library never writes to files, standard streams or the network, never exits or kills the process, starts no goroutines and never sleeps. Everything it does is visible in the values it returns.",
  ["inputs","programs"],"every call into the library",
  "Absence of an effect on rare paths cannot be sampled.",
  ["parser/"],"calls reachable from exported functions")
p("P17","Recorded positions are real source positions",
  "Every position that a returned tree records was taken from the position of a token of the statement, and every node kind records the position where it starts. No position slot that position queries rely on is left unset or is filled from an unrelated number.",
  ["inputs"],"every node of every returned tree",
  "Position tests cover particular nodes; a slot that stays unset on one path is invisible elsewhere.",
  AST+PARSE[1:],"Pos-typed fields and the stores into them")
p("P18","Every reported error is positioned within the input",
  "Every error returned by a parsing entry point (ParseStmts and any other exported parser method that is not itself a step of the grammar) is a structured parse error that carries the input offset, line and column where reading stopped, consistent with each other, and rendering its message never fails.",
  ["inputs"],"every rejected input",
  "Error tests check a dozen messages; each of the error return sites can bypass the finishing step.",
  ["parser/error.go","parser/source.go","parser/parser_common.go","parser/parser_table.go"],"ParseStmts error returns, wrapError, ParseError rendering")
p("P19","The command-line tool reports failure as failure",
  "When the tool cannot read its input or the SQL does not parse, it prints the reason to standard error, prints no result to standard output and exits with a non-zero status; otherwise it prints every parsed statement.",
  ["inputs","configurations"],"every combination of options and inputs",
  "The command has no tests at all.",
  ["main.go"],"error branches, exit codes and output statements of main")
p("P20","Operator tables agree with each other",
  "Every infix operator the expression grammar assigns a binding strength can be parsed as an operator, and every operator it can parse has a binding strength; binding strengths order the operators as lambda < ternary < OR < AND < prefix NOT < comparison < BETWEEN, LIKE and IN < concatenation < additive < multiplicative < element access and cast; a negated operator binds like the operator it negates, and equal-strength operators associate to the left.",
  ["inputs"],"every pair of operators",
  "Precedence tests sample pairs of operators.",
  ["parser/parser_column.go"],"precedence table, getNextPrecedence, parseInfix")
p("P90","Formatting and parsing again gives an equal tree",
  "For every accepted input, formatting the returned tree (in either mode) gives text that parses, and the tree obtained from that text equals the first one up to positions.",
  ["inputs"],"every accepted input, both output modes",
  "The reparse tests cover the listed statements; equality must hold for every combination of parts.",
  ["parser/format.go"]+PARSE[1:],"composition of FormatSQL and ParseStmts over whole trees")
p("P91","Parsing takes time proportional to the input",
  "The time and memory that parsing and formatting take are bounded by a linear (at worst a small polynomial) function of the length of the input.",
  ["inputs"],"every input text",
  "A benchmark samples lengths; a repeated attempt that doubles the work needs a particular nesting.",
  PARSE,"saveState/restoreState attempts, recursion of the expression grammar")
p("P92","Deep nesting is refused, not fatal",
  "An input with very many nested parentheses, subqueries or operators is parsed or rejected with an error; it never exhausts the stack of the process.",
  ["inputs"],"every nesting depth",
  "Tests nest a few levels; exhaustion needs millions.",
  PARSE,"recursion of the parse functions and of the tree operations")
p("P93","The accepted language is ClickHouse's",
  "Every statement that ClickHouse accepts is accepted, and the tree gives it the meaning ClickHouse gives it.",
  ["inputs"],"every ClickHouse statement",
  "Tests list examples.",
  PARSE,"the grammar as a whole")
