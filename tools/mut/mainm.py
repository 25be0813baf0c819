import sys; sys.path.insert(0,'/tmp')
from bm import run
M='main.go'
RD='''		if err != nil {
			fmt.Fprintf(os.Stderr, "read file error: %s\\n", err.Error())
			os.Exit(1)
		}'''
PS='''	if err != nil {
		fmt.Fprintf(os.Stderr, "parse statements error: %s\\n", err.Error())
		os.Exit(1)
	}'''
LP='''		for _, stmt := range stmts {
			if options.beautify {
				formatter := clickhouse.NewFormatter()
				formatter.WithBeautify()
				formatter.WriteExpr(stmt)
				fmt.Println(formatter.String())
			} else {
				fmt.Println(clickhouse.Format(stmt))
			}
		}'''
AST='''		bytes, _ := json.MarshalIndent(stmts, "", "  ") // nolint
		fmt.Println(string(bytes))'''
FM='	parser := clickhouse.NewParser(string(inputBytes))'
cases=[
('exit0',[(M,PS,PS.replace('Exit(1)','Exit(0)'))],['P19'],1),
('noexit',[(M,PS,PS.replace('		os.Exit(1)\n',''))],['P19'],1),
('return',[(M,PS,PS.replace('os.Exit(1)','return'))],['P19'],1),
('rdstdout',[(M,RD,RD.replace('Fprintf(os.Stderr, ','Printf('))],['P19'],1),
('pstdout',[(M,PS,PS.replace('Fprintf(os.Stderr, ','Printf('))],['P19'],1),
('noreason',[(M,PS,PS.replace(': %s\\n", err.Error())','\\n")'))],['P19'],1),
('rdreturn',[(M,RD,RD.replace('os.Exit(1)','return'))],['P19'],1),
('cond',[(M,PS,PS.replace('err != nil','err != nil && len(stmts) == 0'))],['P19'],0),
('condfmt',[(M,PS,PS.replace('err != nil','err != nil && !options.beautify'))],['P19'],1),
('ignore',[(M,'stmts, err := parser.ParseStmts()','stmts, _ := parser.ParseStmts()')],['P19'],1),
('first',[(M,LP,LP.replace('				fmt.Println(clickhouse.Format(stmt))\n','				fmt.Println(clickhouse.Format(stmt))\n				break\n'))],['P19'],1),
('skip',[(M,LP,LP.replace('range stmts {','range stmts {\n			if _, ok := stmt.(*clickhouse.UseStmt); ok {\n				continue\n			}'))],['P19'],1),
('noprint',[(M,LP,LP.replace('				fmt.Println(formatter.String())','				_ = formatter.String()'))],['P19'],1),
('sub',[(M,LP,LP.replace('range stmts {','range stmts[1:] {'))],['P19'],1),
('ast0',[(M,AST,AST.replace('(stmts,','(stmts[0],'))],['P19'],1),
('wrongin',[(M,FM,FM.replace('string(inputBytes)','os.Args[len(os.Args)-1]')+'\n	_ = inputBytes')],['P19'],1),
('stderrout',[(M,AST,AST.replace('fmt.Println(','fmt.Fprintln(os.Stderr, '))],['P19'],1),
('exit1ok',[(M,LP,LP+'\n		os.Exit(2)')],['P19'],1),
('run',[(M,'func main() {','func main() {\n	os.Exit(run())\n}\n\nfunc run() int {'),(M,RD,RD.replace('os.Exit(1)','return 1')),(M,PS,PS.replace('os.Exit(1)','return 1')),(M,LP,LP+'\n	}\n	return 0\n}\n\nfunc unused() {\n	{')],['P19'],0),
('logfatal',[(M,PS,'	if err != nil {\n		log.Fatalf("parse statements error: %s", err)\n	}'),(M,'"fmt"','"fmt"\n	"log"')],['P19'],0),
('helper',[(M,PS,'	if err != nil {\n		fatal("parse statements error: %s\\n", err)\n	}'),(M,RD,'	if err != nil {\n		fatal("parse statements error: %s\\n", err)\n	}'),(M,None,'\nfunc fatal(f string, err error) {\n	fmt.Fprintf(os.Stderr, f, err.Error())\n	os.Exit(1)\n}\n')],['P19'],0),
('read-helper',[(M,'''		inputBytes, err = os.ReadFile(options.file)
'''+RD,'		inputBytes = mustRead(options.file)'),(M,'	var err error\n',''),(M,None,'''
func mustRead(f string) []byte {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, "read file error:", err)
		os.Exit(1)
	}
	return b
}
''')],['P19'],0),
('bufio',[(M,LP,LP.replace('		for','		w := bufio.NewWriter(os.Stdout)\n		for',1).replace('fmt.Println(','fmt.Fprintln(w, ')+'\n		_ = w.Flush()'),(M,'"fmt"','"fmt"\n	"bufio"')],['P19'],0),
('bufio-nf',[(M,LP,LP.replace('		for','		w := bufio.NewWriter(os.Stdout)\n		for',1).replace('fmt.Println(','fmt.Fprintln(w, ')),(M,'"fmt"','"fmt"\n	"bufio"')],['P19'],1),
('index',[(M,LP,LP.replace('_, stmt := range stmts {','i := 0; i < len(stmts); i++ {\n			stmt := stmts[i]'))],['P19'],0),
('index1',[(M,LP,LP.replace('_, stmt := range stmts {','i := 0; i < len(stmts)-1; i++ {\n			stmt := stmts[i]'))],['P19'],1),
('fmtfn',[(M,LP,'''		for _, stmt := range stmts {
			fmt.Println(render(stmt))
		}'''),(M,None,'''
func render(stmt clickhouse.Expr) string {
	if !options.beautify {
		return clickhouse.Format(stmt)
	}
	formatter := clickhouse.NewFormatter()
	formatter.WithBeautify()
	formatter.WriteExpr(stmt)
	return formatter.String()
}
''')],['P19'],0),
('closure',[(M,LP,'''		show := func(stmt clickhouse.Expr) {
			formatter := clickhouse.NewFormatter()
			if options.beautify {
				formatter.WithBeautify()
			}
			formatter.WriteExpr(stmt)
			fmt.Println(formatter.String())
		}
		for _, stmt := range stmts {
			show(stmt)
		}''')],['P19'],0),
('joined',[(M,LP,'''		var lines []string
		for _, stmt := range stmts {
			lines = append(lines, clickhouse.Format(stmt))
		}
		if len(lines) > 0 {
			fmt.Println(strings.Join(lines, "\\n"))
		}''')],['P19'],0),
('jsonerr',[(M,AST,'''		bytes, err := json.MarshalIndent(stmts, "", "  ")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Println(string(bytes))''')],['P19'],0),
('enc',[(M,AST,'''		enc := json.NewEncoder(os.Stdout)
		enc.SetIndent("", "  ")
		_ = enc.Encode(stmts)''')],['P19'],0),
('iferr-chain',[(M,'stmts, err := parser.ParseStmts()\n'+PS,'stmts, perr := parser.ParseStmts()\n	if perr == nil {\n		show(stmts)\n		return\n	}\n	fmt.Fprintf(os.Stderr, "parse statements error: %s\\n", perr.Error())\n	os.Exit(1)\n}\n\nfunc show(stmts []clickhouse.Expr) {')],['P19'],0),
]
run(cases, sys.argv[1] if len(sys.argv)>1 else None)
