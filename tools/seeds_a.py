SEEDS = {
'c03-cli-exit': dict(
    property='C03',
    needs='astra generate with an output that cannot be written',
    breaks='the command reports the failure in its log only and exits with status 0',
    edits=[('cli/astra/cmd/generate.go', '''			s.Log.Error().Err(err).Msg("Failed to generate service")
			os.Exit(1)
		}
''', '''			s.Log.Error().Err(err).Msg("Failed to generate service")
			return
		}
''')],
    demo='''
buildapp; buildcli
run -cli -cache -step setup -out json:api.json || broken "setup: $(cat "$scratch/out")"
mkdir "$app/api.json" # cannot be written
( cd "$app" && "$scratch/astra" generate ) >"$scratch/out" 2>&1 && die "success without an output: $(tail -2 "$scratch/out")"
exit 0
'''),
'c03-last-error': dict(
    property='C03',
    needs='two or more outputs, one of which (but not the last) cannot be written',
    breaks='only the error of the last output is returned, so a generation with a missing output reports success',
    edits=[('generate.go', '''	for _, output := range s.Outputs {
		s.Log.Info().Str("mode", string(output.Mode)).Msg("Generating output")
		err := output.Generate(s)
		if err != nil {
			s.Log.Error().Err(err).Str("mode", string(output.Mode)).Msg("Error generating output")
			return err
		}
		s.Log.Info().Str("mode", string(output.Mode)).Msg("Generating output complete")
	}
''', '''	var outputErr error
	for _, output := range s.Outputs {
		s.Log.Info().Str("mode", string(output.Mode)).Msg("Generating output")
		// One failing output shouldn't keep the others from being generated.
		outputErr = output.Generate(s)
		if outputErr != nil {
			s.Log.Error().Err(outputErr).Str("mode", string(output.Mode)).Msg("Error generating output")
			continue
		}
		s.Log.Info().Str("mode", string(output.Mode)).Msg("Generating output complete")
	}
	if outputErr != nil {
		return outputErr
	}
''')],
    demo='''
buildapp
mkdir "$app/first.json" # cannot be written
run -out json:first.json -out openapi:second.json && die "success without the first output"
exit 0
'''),
'c03-cache-error': dict(
    property='C03',
    needs='a cache that cannot be written any more at the end of the run although it could at its beginning',
    breaks='a generation reports success although the cache that it was asked for was not written',
    edits=[('generate.go', '''		err := s.Cache()
		if err != nil {
			s.Log.Error().Err(err).Msg("Error caching")
			return err
		}
''', '''		// The outputs are complete at this point, so this isn't fatal.
		err := s.Cache()
		if err != nil {
			s.Log.Error().Err(err).Msg("Error caching")
		}
'''), ('clean.go', '''		err := s.Cache()
		if err != nil {
			s.Log.Error().Err(err).Msg("Error caching")
			return err
		}
''', '''		// The service is cached again once the outputs are generated.
		err := s.Cache()
		if err != nil {
			s.Log.Warn().Err(err).Msg("Error caching")
		}
''')],
    demo='''
buildapp
mkdir "$app/keep"
cat >"$scratch/hook.txt" <<'T'
// breaker makes the cache unwritable once the routes are parsed.
type breaker struct{}

func (breaker) Write(p []byte) (int, error) {
	if strings.Contains(string(p), "Cleaning up structs") {
		_ = os.Remove("keep/cache.json")
		_ = os.Mkdir("keep/cache.json", 0o755)
	}
	return len(p), nil
}
T
cat "$scratch/hook.txt" >>"$app/main.go"
sed -i 's/var w io.Writer = &killer{\\*kill}/var w io.Writer = breaker{}/' "$app/main.go"
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken "build"
run -cachepath keep/cache.json -out json:api.json && die "success without the cache"
exit 0
'''),
'c04-gitignore-place': dict(
    property='C04',
    needs='a custom cache path outside .astra',
    breaks='the .gitignore that belongs into .astra is written next to the cache file, where it hides the directory of the user from git',
    edits=[('dir.go', '''	gitIgnorePath := path.Join(s.getAstraDirPath(), ".gitignore")
''', '''	stateDir := s.getAstraDirPath()
	if s.CachePath != "" {
		stateDir = path.Dir(s.CachePath)
	}
	gitIgnorePath := path.Join(stateDir, ".gitignore")
''')],
    demo='''
buildapp
mkdir "$app/data"; echo x >"$app/data/precious"
run -cachepath data/cache.json -out json:api.json || broken "$(cat "$scratch/out")"
[ -e "$app/data/.gitignore" ] && die "data/.gitignore was created"
exit 0
'''),
'c05-main-copy-mode': dict(
    property='C05',
    needs='a successful run with caching but without CLI mode',
    breaks='the temporary copy of package main stays in .astra',
    edits=[('teardown.go', '''	} else {
		s.Log.Info().Msg("Leaving temp dir but cleaning up main package")
''', '''	} else if s.CLIMode == CLIModeBuilder || s.CachePath == "" {
		s.Log.Info().Msg("Leaving temp dir but cleaning up main package")
''')],
    demo='''
buildapp
mkdir "$app/data"
run -cachepath data/cache.json -out json:api.json || broken "$(cat "$scratch/out")"
[ -e "$app/.astra/astramain" ] && die "copy of package main left behind"
exit 0
'''),
'c06-decode-into': dict(
    property='C06',
    needs='loading a damaged cache into a service that already has inputs, outputs or a custom type mapping',
    breaks='the cache is decoded over a copy that shares slices and maps with the loading service, so a failing load leaves it half changed',
    edits=[('cache.go', '''	var service Service
''', '''	service := *s // So that nothing that isn't cached is lost.
''')],
    demo='''
buildapp
run -cache -out json:api.json || broken "$(cat "$scratch/out")"
mkdir "$app/load"
cat >"$app/load/main.go" <<'T'
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
)

func main() {
	data, _ := os.ReadFile(".astra/cache.json")
	data = bytes.Replace(data, []byte(`"port":8000`), []byte(`"port":"8000"`), 1)
	_ = os.WriteFile("broken.json", data, 0o644)
	s := astra.New(inputs.WithGinInput(gin.New()), outputs.WithJSONOutput("mine.json"))
	if err := s.LoadCacheFromCustomPath("broken.json"); err == nil {
		fmt.Println("no error")
		os.Exit(0)
	}
	if p := s.Outputs[0].Configuration[astra.IOConfigurationKeyFilePath]; p != "mine.json" {
		fmt.Println("output path changed to", p)
		os.Exit(1)
	}
}
T
( cd "$app" && go run ./load ) || die "service changed by a failing load"
'''),
'c06-reset': dict(
    property='C06',
    needs='a process that is killed between setting up and writing the first cache although a cache existed',
    breaks='the existing cache is removed before the new one is written',
    edits=[('setup.go', '''	if s.CacheEnabled {
		err := s.Cache()
''', '''	if s.CacheEnabled {
		// A cache of an earlier run isn't valid anymore.
		_ = s.ClearCache()

		err := s.Cache()
''')],
    demo='''
buildapp
run -cache -out json:api.json || broken "$(cat "$scratch/out")"
[ -s "$app/.astra/cache.json" ] || broken "no cache"
cat >"$scratch/hook.txt" <<'T'
type watcher struct{}

func (watcher) Write(p []byte) (int, error) {
	if _, err := os.Stat(".astra/cache.json"); err != nil {
		os.Exit(137)
	}
	return len(p), nil
}
T
cat "$scratch/hook.txt" >>"$app/main.go"
sed -i 's/var w io.Writer = &killer{\\*kill}/var w io.Writer = watcher{}/' "$app/main.go"
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken "build"
run -cache -out json:api.json
[ -s "$app/.astra/cache.json" ] || die "the cache is gone"
'''),
'c07-cache-dir': dict(
    property='C07',
    needs='astra generate with -d naming another directory and a relative cache path',
    breaks='a relative cache path is resolved against the project directory instead of the current one',
    edits=[('cli/astra/cmd/generate.go', '''			cwd = path.Join(wd, cwd)
		}
''', '''			cwd = path.Join(wd, cwd)
		}
		if !path.IsAbs(cacheFile) {
			cacheFile = path.Join(cwd, cacheFile)
		}
''')],
    demo='''
buildapp; buildcli
run -cli -cache -step setup -out json:api.json || broken "setup: $(cat "$scratch/out")"
( cd "$scratch" && "$scratch/astra" generate -d app -c app/.astra/cache.json ) >"$scratch/out" 2>&1 || die "$(tail -2 "$scratch/out")"
[ -s "$app/api.json" ] || die "no output"
'''),
'c07-doc-yaml': dict(
    property='C07',
    needs='a YAML cache taken after the routes were parsed, completed by loading it in code and generating',
    breaks='array lengths are lost in YAML caches',
    edits=[('types.go', '''`json:"arrayLength,omitempty" yaml:"arrayLength,omitempty"`''', '''`json:"arrayLength,omitempty" yaml:"-"`''')],
    demo='''
buildapp
run -cachepath c.yaml -out json:want.json || broken "$(cat "$scratch/out")"
mkdir "$app/load"
cat >"$app/load/main.go" <<'T'
package main

import (
	"fmt"
	"os"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
)

func main() {
	s := astra.New()
	if err := s.LoadCacheFromCustomPath("c.yaml"); err != nil {
		fmt.Println(err)
		os.Exit(0)
	}
	s.Outputs = nil
	outputs.WithJSONOutput("got.json")(s)
	if err := s.Generate(); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
T
( cd "$app" && go run ./load ) || die "generation from the cache"
cmp "$app/want.json" "$app/got.json" || die "outputs differ"
'''),
'c08-copy-error': dict(
    property='C08',
    needs='an error while package main is copied (here: a source file that is too large for the file size limit)',
    breaks='the files of the copy stay open when copying fails',
    edits=[('mainPackage.go', '''			newFilePath := path.Join(newMainPkgPath, file.Name())
			err = os.WriteFile(newFilePath, fileData, 0644)
			if err != nil {
				return err
			}
''', '''			newFile, err := os.Create(path.Join(newMainPkgPath, file.Name()))
			if err != nil {
				return err
			}
			_, err = newFile.Write(fileData)
			if err != nil {
				return err
			}
			err = newFile.Close()
			if err != nil {
				return err
			}
''')],
    demo='''
mkdir -p "$app/load"; mod example.com/app "$app"
cat >"$app/load/main.go" <<'T'
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"runtime/debug"
	"syscall"

	"github.com/ls6-events/astra"
)

func main() {
	signal.Ignore(syscall.SIGXFSZ)
	debug.SetGCPercent(-1) // so that no finalizer closes them
	_ = os.MkdirAll("proj", 0o755)
	_ = os.WriteFile("proj/go.mod", []byte("module example.com/p\\n"), 0o644)
	_ = os.WriteFile("proj/main.go", append([]byte("package main\\n//"), bytes.Repeat([]byte("x"), 100000)...), 0o644)
	count := func() int { e, _ := os.ReadDir("/proc/self/fd"); return len(e) }
	s := astra.New(astra.WithCustomWorkDir("proj"))
	_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 4096, Max: 4096})
	before := count()
	for i := 0; i < 20; i++ {
		if _, err := s.GetMainPackageName(); err == nil {
			os.Exit(0)
		}
	}
	if after := count(); after > before+5 {
		fmt.Println("descriptors:", before, "->", after)
		os.Exit(1)
	}
}
T
( cd "$app" && go build -o "$scratch/app.bin" ./load ) || broken build
run || die "$(cat "$scratch/out")"
'''),
'c09-shared-mapping': dict(
    property='C09',
    needs='two services with different custom type mappings for the same type running at the same time',
    breaks='custom type mappings are merged into the map that all services share',
    edits=[('formatTypes.go', '''		s.fullTypeMapping = make(map[string]TypeFormat)
		maps.Copy(s.fullTypeMapping, PredefinedTypeMap)
		maps.Copy(s.fullTypeMapping, s.CustomTypeMapping)
''', '''		s.fullTypeMapping = PredefinedTypeMap
		maps.Copy(s.fullTypeMapping, s.CustomTypeMapping)
''')],
    demo='''
mkdir -p "$app/load"; mod example.com/app "$app"
cat >"$app/load/main.go" <<'T'
package main

import (
	"fmt"
	"os"

	"github.com/ls6-events/astra"
)

func main() {
	a := astra.New(astra.WithCustomTypeMappingSingle("example.com/p.ID", "string", "a"))
	b := astra.New()
	a.GetTypeMapping("ID", "example.com/p")
	if f, ok := b.GetTypeMapping("ID", "example.com/p"); ok {
		fmt.Println("mapping of the other service:", f)
		os.Exit(1)
	}
}
T
( cd "$app" && go build -o "$scratch/app.bin" ./load ) || broken build
run || die "$(cat "$scratch/out")"
'''),
'c09-chdir': dict(
    property='C09',
    needs='two services with different working directories of which one copies its package main while the other one resolves a relative path',
    breaks='package main is copied with the working directory of the process changed, which is shared by all services',
    edits=[('mainPackage.go', '''	files, err := os.ReadDir(s.WorkDir)
	if err != nil {
		return err
	}
''', '''	// The files are read relative to the working directory of the service.
	prevDir, err := os.Getwd()
	if err != nil {
		return err
	}
	newMainPkgPath, err = filepath.Abs(newMainPkgPath)
	if err != nil {
		return err
	}
	if s.WorkDir != "" {
		err = os.Chdir(s.WorkDir)
		if err != nil {
			return err
		}
		defer os.Chdir(prevDir)
	}

	files, err := os.ReadDir(".")
	if err != nil {
		return err
	}
'''), ('mainPackage.go', '''	"path"
''', '''	"path"
	"path/filepath"
'''), ('mainPackage.go', '''			fileName := path.Join(s.WorkDir, file.Name())
''', '''			fileName := file.Name()
'''), ('mainPackage.go', '''	pkgName, err := s.mainPackagePath()
''', '''	if err := os.Chdir(prevDir); err != nil {
		return err
	}

	pkgName, err := s.mainPackagePath()
''')],
    demo='''
mkdir -p "$app/load"; mod example.com/app "$app"
cat >"$app/load/main.go" <<'T'
package main

import (
	"fmt"
	"os"
	"sync/atomic"

	"github.com/ls6-events/astra"
)

func main() {
	_ = os.MkdirAll("proj", 0o755)
	_ = os.WriteFile("proj/go.mod", []byte("module example.com/p\\n"), 0o644)
	for i := 0; i < 200; i++ {
		_ = os.WriteFile(fmt.Sprintf("proj/f%d.go", i), []byte("package main\\n"), 0o644)
	}
	want, _ := os.Getwd()
	var stop, moved atomic.Bool
	done := make(chan struct{})
	go func() {
		defer close(done)
		for !stop.Load() {
			if dir, err := os.Getwd(); err == nil && dir != want {
				moved.Store(true)
			}
		}
	}()
	for i := 0; i < 20; i++ {
		s := astra.New(astra.WithCustomWorkDir("proj"))
		if _, err := s.GetMainPackageName(); err != nil {
			fmt.Println(err)
		}
	}
	stop.Store(true)
	<-done
	if moved.Load() {
		fmt.Println("another service can see a different working directory")
		os.Exit(1)
	}
}
T
( cd "$app" && go build -o "$scratch/app.bin" ./load ) || broken build
run || die "$(cat "$scratch/out")"
'''),
'c10-route-path': dict(
    property='C10',
    needs='the same service generating again in the same process',
    breaks='the routes of the service are rewritten in OpenAPI notation while the specification is generated, so a repeated generation registers the routes with parameters a second time',
    edits=[('outputs/openapi/generate.go', '''		for _, endpoint := range s.Routes {
			s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Msg("Generating endpoint")
''', '''		for i := range s.Routes {
			endpoint := &s.Routes[i]
			s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Msg("Generating endpoint")
''')],
    demo='''
buildapp
sed -i 's/^\\tcase "setup":/\\tcase "twice":\\n\\t\\terr = s.Parse()\\n\\t\\tif err == nil {\\n\\t\\t\\terr = s.Parse()\\n\\t\\t}\\n\\tcase "setup":/' "$app/main.go"
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken "build"
run -out json:a.json -out openapi:b.json || broken "$(cat "$scratch/out")"
cp "$app/a.json" "$scratch/want"
run -step twice -out json:a.json -out openapi:b.json || die "$(cat "$scratch/out")"
cmp "$app/a.json" "$scratch/want" || die "the second generation differs"
'''),
'c11-find-unlocked': dict(
    property='C11',
    needs='a lookup that runs while another goroutine adds a package below the same parent',
    breaks='the tree is searched without the lock',
    edits=[('astTraversal/packageManager.go', '''func (pm *PackageManager) Find(path string) *PackageNode {
	pm.mu.Lock()
	defer pm.mu.Unlock()

	currNode := pm.tree
''', '''func (pm *PackageManager) Find(path string) *PackageNode {
	pm.mu.Lock()
	currNode := pm.tree
	pm.mu.Unlock()

''')],
    demo='''
mkdir -p "$app/load"; mod example.com/app "$app"
cat >"$app/load/main.go" <<'T'
package main

import (
	"fmt"
	"sync"

	"github.com/ls6-events/astra/astTraversal"
)

func main() {
	pm := astTraversal.NewPackageManager(".")
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				if g == 0 {
					pm.AddPackage(fmt.Sprintf("a/b%d", i))
				} else {
					pm.Find(fmt.Sprintf("a/b%d", i))
				}
			}
		}()
	}
	wg.Wait()
}
T
( cd "$app" && go build -race -o "$scratch/app.bin" ./load ) || broken build
export GORACE=exitcode=66
run || die "$(grep -m1 'DATA RACE' "$scratch/out")"
'''),
'c11-add-gap': dict(
    property='C11',
    needs='two goroutines that add the same path for the first time, one of them between the search and the insertion of the other',
    breaks='both insert a node of their own, so the same path has two nodes',
    edits=[('astTraversal/packageManager.go', '''	pm.mu.Lock()
	defer pm.mu.Unlock()

	currNode := pm.tree
	for _, step := range pathItems {
		found := false
		for _, node := range currNode.Edges {
			if node.Name == step {
				found = true
				currNode = node
				break
			}
		}

		if !found {
			newNode := &PackageNode{
				Name:   step,
				Parent: currNode,
				Edges:  make([]*PackageNode, 0),
			}
			currNode.Edges = append(currNode.Edges, newNode)

			currNode = newNode
		}
	}
''', '''	currNode := pm.tree
	for _, step := range pathItems {
		found := false
		pm.mu.Lock()
		for _, node := range currNode.Edges {
			if node.Name == step {
				found = true
				currNode = node
				break
			}
		}
		pm.mu.Unlock()

		if !found {
			newNode := &PackageNode{
				Name:   step,
				Parent: currNode,
				Edges:  make([]*PackageNode, 0),
			}
			pm.mu.Lock()
			currNode.Edges = append(currNode.Edges, newNode)
			pm.mu.Unlock()

			currNode = newNode
		}
	}
''')],
    demo='''
mkdir -p "$app/load"; mod example.com/app "$app"
cat >"$app/load/main.go" <<'T'
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/ls6-events/astra/astTraversal"
)

func main() {
	for round := 0; round < 200000; round++ {
		pm := astTraversal.NewPackageManager(".")
		var nodes [4]*astTraversal.PackageNode
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range nodes {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				nodes[g] = pm.AddPackage("a/b/c/d/e")
			}()
		}
		close(start)
		wg.Wait()
		for _, n := range nodes {
			if n != nodes[0] {
				fmt.Println("two nodes for one path in round", round)
				os.Exit(1)
			}
		}
	}
}
T
( cd "$app" && go build -o "$scratch/app.bin" ./load ) || broken build
run || die "$(cat "$scratch/out")"
'''),
'c12-type-errors': dict(
    property='C12',
    needs='a package that is needed by a route and has type errors when it is loaded',
    breaks='packages with type errors are used as far as they go, so a generation reports success with parts missing',
    edits=[('astTraversal/loadPackage.go', '''			switch pkgErr.Kind {
			case packages.ListError:
''', '''			// What could be parsed and type checked can still be described.
			if len(pkg.Syntax) > 0 && pkgErr.Kind != packages.ParseError {
				continue
			}

			switch pkgErr.Kind {
			case packages.ListError:
''')],
    demo='''
buildapp
run -out json:api.json || broken "$(cat "$scratch/out")"
rm -f -- "$app/api.json"
# the program was built before the package was broken
sed -i 's/^func getPet(.*/func getPet(c *gin.Context) { c.JSON(statusOfPet, types.Pet{}) }/' "$app/main.go"
run -out json:api.json && die "success although a package has type errors"
exit 0
'''),
'c13-azure-direct': dict(
    property='C13',
    needs='a run that is killed or fails while the functions are written, with or without functions of an earlier run',
    breaks='functions are written straight into the output directory, so an interrupted run leaves empty or torn definitions',
    edits=[('outputs/azureFunctions/generate.go', '''			functionDirectoryPath := path.Join(tempOutputDirectoryPath, funcName)
''', '''			functionDirectoryPath := path.Join(s.WorkDir, directoryPath, funcName)
'''), ('outputs/azureFunctions/generate.go', '''			err := os.Mkdir(functionDirectoryPath, 0755)
''', '''			err := os.MkdirAll(functionDirectoryPath, 0755)
''' ), ('outputs/azureFunctions/generate.go', '''		tempOutputDirectoryPath, err := s.SetupTempOutputDir(tempOutputDir)
''', '''		_, err := s.SetupTempOutputDir(tempOutputDir)
''')],
    demo='''
buildapp
sed -i 's/outputs.WithAzureFunctionsOutput(path))/outputs.WithAzureFunctionsOutput(path), astra.WithCustomLogLevel("debug"))/' "$app/main.go"
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken "build"
run -out azure:fns || broken "$(cat "$scratch/out")"
[ -s "$app/fns/getPet/function.json" ] || broken "no functions"
rm -rf -- "$app/fns" "$app/.astra"
run -out azure:fns -kill "Writing JSON output to file" && broken "was not killed"
for d in "$app"/fns/*/; do
	[ -d "$d" ] || continue
	[ -s "${d}function.json" ] || die "${d#$app/} is incomplete"
done
exit 0
'''),
'c13-clear-first': dict(
    property='C13',
    needs='a kill or a failing write after the previous output was removed',
    breaks='the previous specification is removed before the new one is written',
    edits=[('outputs/openapi/generate.go', '''		var file []byte
		var err error
		if strings.HasSuffix(filePath, ".yaml")''', '''		// An outdated specification shouldn't be mistaken for the result if anything fails from here on.
		_ = os.Remove(path.Join(s.WorkDir, filePath))

		var file []byte
		var err error
		if strings.HasSuffix(filePath, ".yaml")'''), ('outputs/openapi/generate.go', '''	"net/http"
''', '''	"net/http"
	"os"
'''), ('outputs/openapi/generate.go', '''			s.Log.Debug().Msg("Writing JSON file")
''', '''			s.Log.Debug().Msg("Writing JSON document")
''')],
    demo='''
buildapp
cat >>"$app/main.go" <<'T'

type watcher struct{}

func (watcher) Write(p []byte) (int, error) {
	if _, err := os.Stat("api.json"); err != nil {
		os.Exit(137)
	}
	return len(p), nil
}
T
run -out openapi:api.json || broken "$(cat "$scratch/out")"
sed -i 's/var w io.Writer = &killer{\\*kill}/var w io.Writer = watcher{}/; s/outputs.WithOpenAPIOutput(path))/outputs.WithOpenAPIOutput(path), astra.WithCustomLogLevel("debug"))/' "$app/main.go"
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken "build"
run -out openapi:api.json
[ -s "$app/api.json" ] || die "the specification is gone"
'''),
}
