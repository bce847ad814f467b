PROP="C43"
D="pipelines/stagedpipe/tools/stagedpipe-cli/cmd/"
I=D+"init.go"
def i(*eds): return [(I,o,n) for o,n in eds]
CH="""		if err := os.Chdir(path.Base(tArgs.PackagePath)); err != nil {
			return err
		}
"""
MAIN="""		if createMain {
			if err := os.WriteFile("main.go", mainBuff.Bytes(), 0o600); err != nil {
				return err
			}
		}
"""
DATA="""		if err := os.WriteFile("data.go", dataBuff.Bytes(), 0o600); err != nil {
			return err
		}
"""
PIPE="""		if err := os.WriteFile(pipelineFile(tArgs.PackageName), pipeBuff.Bytes(), 0o600); err != nil {
			return err
		}
		return nil
"""
MK="""		if err := os.Mkdir(path.Base(tArgs.PackagePath), 0o700); err != nil {
			return err
		}
"""
EX="""		if err := tmpls.ExecuteTemplate(mainBuff, "main", tArgs); err != nil {
			return err
		}
"""
M=[
("main-in-sub","C43",i((MAIN,""),(CH,CH+MAIN))),
("no-chdir","C43",i((CH,""))),
("main-always","C43",i(("		if createMain {\n","		if createMain || !createMain {\n"))),
("main-never","C43",i(("		if createMain {\n","		if createMain && !createMain {\n"))),
("main-inverted","C43",i(("		if createMain {\n","		if !createMain {\n"))),
("swap-buffs","C43",i(("os.WriteFile(\"data.go\", dataBuff","os.WriteFile(\"data.go\", pipeBuff"))),
("data-twice","C43",i(("pipelineFile(tArgs.PackageName), pipeBuff.Bytes()","\"data.go\", pipeBuff.Bytes()"))),
("ignore-data-err","C43",i((DATA,"		os.WriteFile(\"data.go\", dataBuff.Bytes(), 0o600)\n"))),
("ignore-mkdir-err","C43",i((MK,"		os.Mkdir(path.Base(tArgs.PackagePath), 0o700)\n"))),
("ignore-chdir-err","C43",i((CH,"		_ = os.Chdir(path.Base(tArgs.PackagePath))\n"))),
("return-nil-on-err","C43",i((DATA,DATA.replace("return err","return nil")))),
("shadowed-err","C43",i((PIPE,"""		var err error
		if err := os.WriteFile(pipelineFile(tArgs.PackageName), pipeBuff.Bytes(), 0o600); err != nil {
			_ = err
		}
		return err
"""))),
("mkdir-exist-ok","C43",i((MK,"		if err := os.Mkdir(path.Base(tArgs.PackagePath), 0o700); err != nil && !os.IsExist(err) {\n			return err\n		}\n"))),
("mkdir-noexec","C43",i(("0o700","0o600"))),
("unfix-names","C43",i(("	if pkg == \"data\" || strings.Contains(pkg, \"_\") {\n		return \"pipeline.go\"\n	}\n",""),('	"strings"\n',""))),
("names-data-only","C43",i((" || strings.Contains(pkg, \"_\")",""),('	"strings"\n',""))),
("names-underscore-only","C43",i(("pkg == \"data\" || ",""))),
("names-to-data","C43",i(("return \"pipeline.go\"","return \"data.go\""))),
("pkgname-is-path","C43",i(("PackageName: path.Base(pkg),","PackageName: pkg,"))),
("mkdir-dir","C43",i(("os.Mkdir(path.Base(tArgs.PackagePath)","os.Mkdir(path.Dir(tArgs.PackagePath)"))),
("bytes-early","C43",i((EX,""),("		if err := tmpls.ExecuteTemplate(dataBuff, \"data\"","		mainBytes := mainBuff.Bytes()\n		if err := tmpls.ExecuteTemplate(mainBuff, \"main\", tArgs); err != nil {\n			return err\n		}\n		if err := tmpls.ExecuteTemplate(dataBuff, \"data\""),("mainBuff.Bytes(), 0o600","mainBytes, 0o600"))),
("wrong-template","C43",i(("tmpls.New(\"data\").Parse(dataTmpl)","tmpls.New(\"data\").Parse(pipelineTmpl)"))),
("wrong-embed","C43",i(("//go:embed data.tmpl","//go:embed pipeline.tmpl"))),
("no-flag-m","C43",i(('initCmd.Flags().BoolVarP(&createMain, "createMain", "m", false, "Create a main file that calls the package")','_ = createMain'))),
("not-added","C43",i(("	rootCmd.AddCommand(initCmd)\n","	_ = rootCmd\n	_ = initCmd\n"))),
("exit-0","C43",[(D+"root.go","os.Exit(1)","os.Exit(0)")]),
("no-exit","C43",[(D+"root.go","		os.Exit(1)\n","		fmt.Fprintln(os.Stderr, err)\n")]),
("tmpl-main-unused","C43",[(D+"main.tmpl","    \"log\"\n","    \"log\"\n    \"os\"\n")]),
("tmpl-main-newreq","C43",[(D+"main.tmpl","NewRequest(reqCtx, ","NewRequest(")]),
("tmpl-data-nocomma","C43",[(D+"data.tmpl","Ctx: ctx,","Context: ctx,")]),
("tmpl-main-import","C43",[(D+"main.tmpl","\"{{ .PackagePath }}\"","\"{{ .PackageName }}\"")]),
("tmpl-main-lit","C43",[(D+"main.tmpl","{{ .PackageName }}.NewSM()","mypipeline.NewSM()")]),
("tmpl-sm-noclose","C43",[(D+"pipeline.tmpl","func (s *SM) Close()","func (s *SM) Stop()")]),
("tmpl-sm-pkg","C43",[(D+"pipeline.tmpl","package {{ .PackageName }}","package pipeline")]),
("tmpl-main-pkg","C43",[(D+"main.tmpl","package main","package {{ .PackageName }}")]),
("tmpl-field","C43",[(D+"main.tmpl","{{ .PackageName }}.NewSM()","{{ .Package }}.NewSM()")]),
("tmpl-newsm-arg","C43",[(D+"pipeline.tmpl","func NewSM() (*SM, error)","func NewSM(n int) (*SM, error)")]),
("api-num","C43",[("pipelines/stagedpipe/stagedpipe.go","func (r *RequestGroup[T]) Out() chan Request[T] {","func (r *RequestGroup[T]) Output() chan Request[T] { return r.Out(0) }\n\nfunc (r *RequestGroup[T]) Out(int) chan Request[T] {")]),
# behaviour kept
("helper-render","",i(("		dataBuff := &bytes.Buffer{}\n		pipeBuff := &bytes.Buffer{}\n		mainBuff := &bytes.Buffer{}\n",""),("""		if err := tmpls.ExecuteTemplate(dataBuff, "data", tArgs); err != nil {
			return err
		}
		if err := tmpls.ExecuteTemplate(pipeBuff, "pipeline", tArgs); err != nil {
			return err
		}
"""+EX,"""		dataBuff, err := render("data", tArgs)
		if err != nil {
			return err
		}
		pipeBuff, err := render("pipeline", tArgs)
		if err != nil {
			return err
		}
		mainBuff, err := render("main", tArgs)
		if err != nil {
			return err
		}
"""),("// pipelineFile is","""func render(name string, args tmplArgs) (*bytes.Buffer, error) {
	b := new(bytes.Buffer)
	if err := tmpls.ExecuteTemplate(b, name, args); err != nil {
		return nil, err
	}
	return b, nil
}

// pipelineFile is"""))),
("join-no-chdir","",i((CH,"		dir := path.Base(tArgs.PackagePath)\n"),('os.WriteFile("data.go"','os.WriteFile(filepath.Join(dir, "data.go")'),("os.WriteFile(pipelineFile(tArgs.PackageName)","os.WriteFile(filepath.Join(dir, pipelineFile(tArgs.PackageName))"),('	"path"\n','	"path"\n	"path/filepath"\n'))),
("return-last","",i((PIPE,"		return os.WriteFile(pipelineFile(tArgs.PackageName), pipeBuff.Bytes(), 0o600)\n"))),
("use-pkgname","",i(("os.Mkdir(path.Base(tArgs.PackagePath)","os.Mkdir(tArgs.PackageName"),("os.Chdir(path.Base(tArgs.PackagePath)","os.Chdir(tArgs.PackageName"))),
("named-run","",i(("	RunE: func(cmd *cobra.Command, args []string) error {\n","	RunE: runInit,\n}\n\nfunc runInit(cmd *cobra.Command, args []string) error {\n"),("		return nil\n	},\n}\n","		return nil\n}\n"))),
("wrapped-err","",i((DATA,DATA.replace("return err","return fmt.Errorf(\"data.go: %w\", err)")),('	"os"\n','	"fmt"\n	"os"\n'))),
("main-last","",i((MAIN,""),(MK,MAIN+MK))),
("main-only-rendered","",i((EX,""),("			if err := os.WriteFile(\"main.go\"",EX+"			if err := os.WriteFile(\"main.go\""))),
("tmpl-comment","",[(D+"data.tmpl","// Data is the data","// Data is data that")]),
("tmpl-trim","",[(D+"data.tmpl","package {{ .PackageName }}","package {{.PackageName}}")]),
("global-loop-init","",i(("	template.Must(tmpls.New(\"data\").Parse(dataTmpl))\n	template.Must(tmpls.New(\"pipeline\").Parse(pipelineTmpl))\n	template.Must(tmpls.New(\"main\").Parse(mainTmpl))\n","	add(\"data\", dataTmpl)\n	add(\"pipeline\", pipelineTmpl)\n	add(\"main\", mainTmpl)\n"),("// pipelineFile is","func add(name, text string) {\n	template.Must(tmpls.New(name).Parse(text))\n}\n\n// pipelineFile is"))),
]
