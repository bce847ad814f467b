I="pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go"
s=open("/repo/"+I).read()
BODY=s[s.index("		tArgs := tmplArgs{"):s.index("		return nil\n	},\n}\n")]
M=[
("i-table","",[(I,BODY,'''		tArgs := tmplArgs{
			PackagePath: pkg,
			PackageName: path.Base(pkg),
		}
		dir := tArgs.PackageName

		files := []struct {
			name, tmpl string
			skip       bool
		}{
			{name: "main.go", tmpl: "main", skip: !createMain},
			{name: path.Join(dir, "data.go"), tmpl: "data"},
			{name: path.Join(dir, pipelineFile(tArgs.PackageName)), tmpl: "pipeline"},
		}

		if err := os.Mkdir(dir, 0o700); err != nil {
			return err
		}
		for _, f := range files {
			if f.skip {
				continue
			}
			buf := &bytes.Buffer{}
			if err := tmpls.ExecuteTemplate(buf, f.tmpl, tArgs); err != nil {
				return err
			}
			if err := os.WriteFile(f.name, buf.Bytes(), 0o600); err != nil {
				return err
			}
		}
''')]),
("i-writefn","",[(I,BODY,'''		tArgs := tmplArgs{PackagePath: pkg, PackageName: path.Base(pkg)}

		data, err := render("data", tArgs)
		if err != nil {
			return err
		}
		pipe, err := render("pipeline", tArgs)
		if err != nil {
			return err
		}
		main, err := render("main", tArgs)
		if err != nil {
			return err
		}

		dir := path.Base(tArgs.PackagePath)
		if err := os.Mkdir(dir, 0o700); err != nil {
			return err
		}
		if createMain {
			if err := write("", "main.go", main); err != nil {
				return err
			}
		}
		if err := write(dir, "data.go", data); err != nil {
			return err
		}
		if err := write(dir, pipelineFile(tArgs.PackageName), pipe); err != nil {
			return err
		}
'''),(I,"// pipelineFile is","""func render(tmpl string, args tmplArgs) ([]byte, error) {
	b := bytes.Buffer{}
	err := tmpls.ExecuteTemplate(&b, tmpl, args)
	return b.Bytes(), err
}

func write(dir, name string, content []byte) error {
	return os.WriteFile(path.Join(dir, name), content, 0o600)
}

// pipelineFile is""")]),
("i-run","",[(I,"	RunE: func(cmd *cobra.Command, args []string) error {\n"+BODY+"		return nil\n	},\n}\n","	RunE: runInit,\n}\n\nfunc runInit(cmd *cobra.Command, args []string) error {\n"+BODY+"		return nil\n}\n")]),
("i-lookup","",[(I,'		if err := tmpls.ExecuteTemplate(dataBuff, "data", tArgs); err != nil {','		if err := tmpls.Lookup("data").Execute(dataBuff, tArgs); err != nil {')]),
("i-vars","",[(I,'var tmpls = template.New("")\n','var (\n	dataT     = template.Must(template.New("data").Parse(dataTmpl))\n	pipelineT = template.Must(template.New("pipeline").Parse(pipelineTmpl))\n	mainT     = template.Must(template.New("main").Parse(mainTmpl))\n)\n'),
 (I,'tmpls.ExecuteTemplate(dataBuff, "data", tArgs)','dataT.Execute(dataBuff, tArgs)'),(I,'tmpls.ExecuteTemplate(pipeBuff, "pipeline", tArgs)','pipelineT.Execute(pipeBuff, tArgs)'),(I,'tmpls.ExecuteTemplate(mainBuff, "main", tArgs)','mainT.Execute(mainBuff, tArgs)'),
 (I,'	template.Must(tmpls.New("data").Parse(dataTmpl))\n	template.Must(tmpls.New("pipeline").Parse(pipelineTmpl))\n	template.Must(tmpls.New("main").Parse(mainTmpl))\n\n','')]),
("i-create","",[(I,'		if err := os.WriteFile("data.go", dataBuff.Bytes(), 0o600); err != nil {\n			return err\n		}\n','		f, err := os.Create("data.go")\n		if err != nil {\n			return err\n		}\n		if _, err := f.Write(dataBuff.Bytes()); err != nil {\n			f.Close()\n			return err\n		}\n		if err := f.Close(); err != nil {\n			return err\n		}\n')]),
("i-fname","",[(I,"@func pipelineFile(",'''func pipelineFile(pkg string) string {
	switch {
	case pkg == "data":
	case strings.ContainsRune(pkg, '_'):
	default:
		return pkg + ".go"
	}
	return "pipeline.go"
}
''')]),
("i-fname2","",[(I,"@func pipelineFile(",'''func pipelineFile(pkg string) string {
	name := pkg
	if name == "data" || strings.IndexByte(name, '_') >= 0 {
		name = "pipeline"
	}
	return fmt.Sprintf("%s.go", name)
}
'''),(I,'	_ "embed"\n','	_ "embed"\n	"fmt"\n')]),
("i-wrap","",[(I,'		if err := os.Mkdir(path.Base(tArgs.PackagePath), 0o700); err != nil {\n			return err\n','		if err := os.Mkdir(path.Base(tArgs.PackagePath), 0o700); err != nil {\n			return fmt.Errorf("could not create the package directory: %w", err)\n'),(I,'	_ "embed"\n','	_ "embed"\n	"fmt"\n')]),
("i-filepath","",[(I,'os.Chdir(path.Base(tArgs.PackagePath))','os.Chdir(filepath.Join(".", tArgs.PackageName))'),(I,'	"path"\n','	"path"\n	"path/filepath"\n')]),
("i-join","",[(I,'		if err := os.Chdir(path.Base(tArgs.PackagePath)); err != nil {\n			return err\n		}\n\n		if err := os.WriteFile("data.go", dataBuff.Bytes(), 0o600); err != nil {\n			return err\n		}\n\n		if err := os.WriteFile(pipelineFile(tArgs.PackageName), pipeBuff','		dir := path.Base(tArgs.PackagePath)\n		if err := os.WriteFile(dir+"/data.go", dataBuff.Bytes(), 0o600); err != nil {\n			return err\n		}\n\n		if err := os.WriteFile(filepath.Join(dir, pipelineFile(tArgs.PackageName)), pipeBuff'),(I,'	"path"\n','	"path"\n	"path/filepath"\n')]),
("i-mkdirall","",[(I,"		if err := os.Mkdir(","		perm := os.FileMode(0o755)\n		if err := os.Mkdir("),(I,"PackagePath), 0o700)","PackagePath), perm)")]),
("i-final","",[(I,"		if err := os.WriteFile(pipelineFile(tArgs.PackageName), pipeBuff.Bytes(), 0o600); err != nil {\n			return err\n		}\n		return nil\n","		err := os.WriteFile(pipelineFile(tArgs.PackageName), pipeBuff.Bytes(), 0o600)\n		return err\n")]),
]
