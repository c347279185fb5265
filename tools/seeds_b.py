SEEDS = {
'c02-reuse-copy': dict(
    property='C02',
    needs='a run that is killed while it copies package main (or fails to copy it completely), followed by another run',
    breaks='the incomplete copy of package main that a killed run left is used by the next run',
    edits=[('mainPackage.go', '''	if _, err := os.Stat(newMainPkgPath); err == nil {
		err := os.RemoveAll(newMainPkgPath)
		if err != nil {
			return err
		}
	}
	err = os.Mkdir(newMainPkgPath, 0755)
	if err != nil {
		return err
	}
''', '''	copied := false
	if entries, err := os.ReadDir(newMainPkgPath); err == nil && len(entries) > 0 {
		// The package has already been copied.
		copied = true
	}
	err = os.MkdirAll(newMainPkgPath, 0755)
	if err != nil {
		return err
	}
'''), ('mainPackage.go', '''	files, err := os.ReadDir(s.WorkDir)
	if err != nil {
		return err
	}
''', '''	files, err := os.ReadDir(s.WorkDir)
	if err != nil {
		return err
	}
	if copied {
		files = nil
	}
''')],
    demo='''
buildapp
printf 'package main\\n\\n// Extra is in a file of its own.\\ntype Extra struct {\\n\\tX int\\n}\\n' >"$app/zz.go"
sed -i 's/c.JSON(http.StatusOK, Local{})/c.JSON(http.StatusOK, Extra{})/' "$app/main.go"
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken build
run -cache -out json:api.json || broken "fresh run: $(cat "$scratch/out")"
cp "$app/api.json" "$scratch/want"; rm -rf -- "$app/.astra" "$app/api.json"
# what is left of a run that ended after it had copied the first file
mkdir -p "$app/.astra/astramain"; echo '*' >"$app/.astra/.gitignore"
sed 's/^package main/package astramain/' "$app/main.go" >"$app/.astra/astramain/main.go"
run -cache -out json:api.json || die "run after a killed run: $(cat "$scratch/out")"
cmp "$app/api.json" "$scratch/want" || die "outputs differ"
'''),

'c01-enum-lines': dict(
    property='C01',
    needs='constants of one enum type declared in several files of a package, on lines with the same number',
    breaks='enum constants are collected from a map and ordered by line number only, so constants of different files on the same line change places',
    edits=[('astTraversal/type.go', '''			for _, file := range t.Package.Package.Syntax {
				// Then we iterate over every declaration in the file
				for _, decl := range file.Decls {
''', '''			fset := t.Package.Package.Fset
			decls := make(map[token.Pos]ast.Decl)
			for _, file := range t.Package.Package.Syntax {
				for _, decl := range file.Decls {
					decls[decl.Pos()] = decl
				}
			}

			// In the order in which they are declared
			positions := make([]token.Pos, 0, len(decls))
			for pos := range decls {
				positions = append(positions, pos)
			}
			sort.Slice(positions, func(i, j int) bool {
				return fset.Position(positions[i]).Line < fset.Position(positions[j]).Line
			})

			for _, pos := range positions {
				for _, decl := range []ast.Decl{decls[pos]} {
'''), ('astTraversal/type.go', '''	"go/types"
''', '''	"go/types"
	"sort"
''')],
    demo='''
mkdir -p "$app/more"
for f in a b c d; do printf 'package more\\n\\nconst Of%s Row = "%s"\\n' $f $f >"$app/more/$f.go"; done
printf 'package more\\n\\n\\n\\ntype Row string\\n' >"$app/more/row.go"
buildapp
python3 - "$app/main.go" <<'P'
import sys
p = sys.argv[1]
t = open(p).read()
t = t.replace('"example.com/app/types"\\n', '"example.com/app/types"\\n\\t"example.com/app/more"\\n')
t = t.replace('func main() {', 'func rows(c *gin.Context) { c.JSON(200, more.OfA()) }\\n\\nfunc main() {', 1).replace('more.OfA()', 'more.Ofa')
t = t.replace('r.GET("/pets", listPets)', 'r.GET("/pets", listPets)\\n\\tr.GET("/rows", rows)')
t = t.replace('err = s.Generate()\\n', 'if err = s.ParseRoutes(); err == nil {\\n\\t\\t\\t\\terr = s.Generate()\\n\\t\\t\\t}\\n').replace('i < 300', 'i < 12')
open(p, 'w').write(t)
P
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken "build"
run -step many -out json:api.json
case $? in 0) ;; 7) die "$(cat "$scratch/out")" ;; *) broken "generation: $(cat "$scratch/out")" ;; esac
'''),
'c05-not-copied': dict(
    property='C05',
    needs='a run that is killed after it parsed the routes, then a program that loads its cache, generates and tears down without parsing again',
    breaks='the copy of package main is only removed by the process that made it',
    edits=[('teardown.go', '''	} else {
		s.Log.Info().Msg("Leaving temp dir but cleaning up main package")
''', '''	} else if s.tempMainPackageName != "" {
		s.Log.Info().Msg("Leaving temp dir but cleaning up main package")
''')],
    demo='''
buildapp
run -cache -out json:api.json -kill "Cleaning up structs complete" && broken "was not killed"
[ -d "$app/.astra/astramain" ] || broken "no copy left"
mkdir "$app/load"
cat >"$app/load/main.go" <<'T'
package main

import (
	"fmt"
	"os"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/outputs"
)

func main() {
	s := astra.New(cache.WithCache())
	err := s.LoadCache()
	if err == nil {
		s.Outputs = nil
		outputs.WithJSONOutput("api.json")(s)
		err = s.Generate()
	}
	if err == nil {
		err = s.Teardown()
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
T
( cd "$app" && go run ./load ) || broken "generation from the cache"
[ -s "$app/api.json" ] || broken "no output"
[ -e "$app/.astra/astramain" ] && die "copy of package main left behind"
exit 0
'''),
}
