# A fourth batch: configuration, valid projects, standard names, histories of a service.
APP = '''
buildapp
%s
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken build
'''
# a program of its own: what main does follows
OWN = '''
mod example.com/app "$app"
cat >"$app/main.go" <<'X'
package main

import (
	"fmt"
	"os"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
	"github.com/rs/zerolog"
)

type Item struct {
	ID int `json:"id"`
}

func getItem(c *gin.Context) { c.JSON(200, Item{}) }

func check(err error) {
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(1)
	}
}

func service(out string, r *gin.Engine) *astra.Service {
	return astra.New(astra.WithCustomLogger(zerolog.Nop()), inputs.WithGinInput(r), outputs.WithOpenAPIOutput(out))
}

func router() *gin.Engine {
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	r.GET("/items", getItem)
	return r
}

func main() {
%s
}
X
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken build
run || die "$(cat "$scratch/out")"
'''
SEEDS = {
'c20-default-port': dict(
    property='C20',
    needs='a service without TLS on port 443, or with TLS on port 80',
    breaks='the default port of either protocol is left out of the URL of the server, also where it is not the one of the protocol of the service',
    edits=[('outputs/openapi/generate.go', '''					URL: fmt.Sprintf("%s://%s:%d%s", protocol, s.Config.Host, s.Config.Port, s.Config.BasePath),
''', '''					URL: fmt.Sprintf("%s://%s%s", protocol, authority(s.Config), s.Config.BasePath),
'''), ('outputs/openapi/generate.go', '''// Generate the OpenAPI output.
''', '''// authority is the host and the port of the service, the latter only if it isn't a well-known one.
func authority(config *astra.Config) string {
	switch config.Port {
	case 80, 443:
		return config.Host
	default:
		return fmt.Sprintf("%s:%d", config.Host, config.Port)
	}
}

// Generate the OpenAPI output.
''')],
    demo=OWN % '''	s := service("api.json", router())
	s.SetConfig(&astra.Config{Title: "t", Version: "1", Host: "api.example.com", BasePath: "/v1", Port: 443})
	check(s.Parse())
''' + '''
python3 - "$app/api.json" <<'P' || die "the server is not the one of the configuration"
import json, sys
u = json.load(open(sys.argv[1]))['servers'][0]['url']
assert u == 'http://api.example.com:443/v1', u
P
'''),

'c20-config-kept': dict(
    property='C20',
    needs='a configuration without a contact, set after one with a contact on the same service, before the next generation',
    breaks='contact and license of an earlier configuration of the service stay when the new one has none',
    edits=[('config.go', '''	s.Config = config
	return s
''', '''	// What the new configuration leaves open stays as it is.
	if s.Config != nil && config != nil {
		if config.Contact == (Contact{}) {
			config.Contact = s.Config.Contact
		}
		if config.License == (License{}) {
			config.License = s.Config.License
		}
	}

	s.Config = config
	return s
''')],
    demo=OWN % '''	s := service("api.json", router())
	s.SetConfig(&astra.Config{Title: "t", Version: "1", Host: "h", BasePath: "/", Port: 80, Contact: astra.Contact{Name: "Ann"}})
	check(s.Parse())
	s.SetConfig(&astra.Config{Title: "t", Version: "2", Host: "h", BasePath: "/", Port: 80})
	check(s.Parse())
''' + '''
grep -q Ann "$app/api.json" && die "the contact of the earlier configuration is still there"
exit 0
'''),

'c01-pwd': dict(
    property='C01',
    needs='a process whose PWD is not its working directory: started with another directory by a supervisor, or after os.Chdir',
    breaks='the working directory is taken from the environment, where it can be that of the parent process',
    edits=[('setup.go', '''		cwd, err := os.Getwd()
		if err != nil {
			s.Log.Error().Err(err).Msg("Error noting current dir")
			return err
		}
''', '''		// The shell knows the name that the user gave to the directory, it isn't resolved if it's a link.
		cwd := os.Getenv("PWD")
		if cwd == "" {
			var err error
			cwd, err = os.Getwd()
			if err != nil {
				s.Log.Error().Err(err).Msg("Error noting current dir")
				return err
			}
		}
''')],
    demo=OWN.replace('run || die "$(cat "$scratch/out")"', '') % '''	s := service("api.json", router())
	s.SetConfig(&astra.Config{Title: "t", Version: "1", Host: "h", BasePath: "/", Port: 80})
	check(s.Parse())
''' + '''
( cd "$app" && PWD="$scratch" "$scratch/app.bin" ) >"$scratch/out" 2>&1 || die "with another PWD: $(cat "$scratch/out")"
[ -s "$app/api.json" ] || die "with another PWD the output is not where it belongs"
'''),

'c15-own-time': dict(
    property='C15',
    needs='a type of the project with the name of a type of the standard library, in a package named like that of the library',
    breaks='the Duration of a package "time" of the project is described as a number',
    edits=[('substituteTypes.go', '''		qualifiedName = fmt.Sprintf("%s.%s", component.Package, component.Name)
''', '''		qualifiedName = fmt.Sprintf("%s.%s", path.Base(component.Package), component.Name)
'''), ('substituteTypes.go', '''import "fmt"
''', '''import (
	"fmt"
	"path"
)
''')],
    demo=APP % '''mkdir -p "$app/time"
printf 'package time\\n\\n// Duration is a span.\\ntype Duration struct {\\n\\tFrom int `json:"from"`\\n\\tTo int `json:"to"`\\n}\\n' >"$app/time/time.go"
sed -i 's/c.JSON(http.StatusOK, Local{})/c.JSON(http.StatusOK, time.Duration{})/; s#^import (#import (\\n\\t"example.com/app/time"#' "$app/main.go"
''' + '''
run -out openapi:api.json || die "$(cat "$scratch/out")"
python3 - "$app/api.json" <<'P' || die "the type of the project is described as another one"
import json, sys
d = json.load(open(sys.argv[1]))
ref = d['paths']['/local']['get']['responses']['200']['content']['application/json']['schema']['$ref']
s = d['components']['schemas'][ref.rsplit('/', 1)[1]]
assert sorted(s.get('properties', {})) == ['from', 'to'], s
P
'''),

'c09-memo': dict(
    property='C09',
    needs='two services that parse their routes at the same time',
    breaks='the parts of handler names are remembered in a map that all services of the process write to without a lock',
    edits=[('utils/splitHandlerPath.go', '''func SplitHandlerPath(handlerPath string) HandlerPath {
''', '''// handlerPaths are the paths that have been split already, as handlers can have many routes.
var handlerPaths = make(map[string]HandlerPath)

func SplitHandlerPath(handlerPath string) HandlerPath {
	if split, ok := handlerPaths[handlerPath]; ok {
		return split
	}

	split := splitHandlerPath(handlerPath)
	handlerPaths[handlerPath] = split

	return split
}

func splitHandlerPath(handlerPath string) HandlerPath {
''')],
    demo='''
mod example.com/app "$app"
cat >"$app/main.go" <<'X'
package main

import (
	"fmt"
	"sync"

	"github.com/ls6-events/astra/utils"
)

func main() {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50000; j++ {
				utils.SplitHandlerPath(fmt.Sprintf("example.com/app/handlers%d.Get%d", i, j))
			}
		}()
	}
	wg.Wait()
}
X
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken build
run || die "two services at the same time: $(head -1 "$scratch/out")"
'''),
}
