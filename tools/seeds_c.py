# A third batch: what is described, for whom and under which name.
APP = '''
buildapp
%s
( cd "$app" && go build -o "$scratch/app.bin" . ) || broken build
'''
SEEDS = {
'c15-doc-group': dict(
    property='C15',
    needs='types declared in one group, an undocumented one after a documented one',
    breaks='a type without a comment of its own is described with the comment of the type before it in the same group',
    edits=[('astTraversal/packageNode.go', '''				// Loop over every spec
				for _, spec := range genDecl.Specs {
''', '''				doc := genDecl.Doc.Text()
				// Loop over every spec
				for _, spec := range genDecl.Specs {
'''), ('astTraversal/packageNode.go', '''						if typeSpec.Doc == nil && genDecl.Doc == nil {
							continue
						} else if typeSpec.Doc != nil { // The TypeSpec has priority over the GenDecl
							p.TypeDocMap[typeSpec.Name.Name] = typeSpec.Doc.Text()
						} else {
							p.TypeDocMap[typeSpec.Name.Name] = genDecl.Doc.Text()
						}
''', '''						if typeSpec.Doc != nil { // The TypeSpec has priority over the GenDecl
							doc = typeSpec.Doc.Text()
						}
						if doc == "" {
							continue
						}
						p.TypeDocMap[typeSpec.Name.Name] = doc
''')],
    demo=APP % '''cat >"$app/types/group.go" <<'X'
package types

type (
	// First has a comment.
	First struct {
		A int
	}

	Second struct {
		B int
	}
)
X
sed -i 's/c.JSON(http.StatusOK, Local{})/c.JSON(http.StatusOK, types.First{}); c.JSON(http.StatusAccepted, types.Second{})/' "$app/main.go"
''' + '''
run -out openapi:api.json || die "$(cat "$scratch/out")"
python3 - "$app/api.json" <<'P' || die "Second has the comment of First"
import json, sys
s = json.load(open(sys.argv[1]))['components']['schemas']
assert s['types.First'].get('description') == 'First has a comment.', s['types.First']
assert not s['types.Second'].get('description'), s['types.Second']
P
'''),

'c16-version-suffix': dict(
    property='C16',
    needs='types of the same name in a package and in the package of its next major version (lib and lib/v2) in one document',
    breaks='the version at the end of an import path is not part of the name of a package in OpenAPI documents, so the two types share one schema',
    edits=[('outputs/openapi/components.go', '''	return pkg[strings.LastIndex(pkg, "/")+1:]
''', '''	elements := strings.Split(pkg, "/")
	name := elements[len(elements)-1]
	// The version of a module isn't a part of the name of its package.
	if len(elements) > 1 && len(name) > 1 && name[0] == 'v' && strings.Trim(name[1:], "0123456789") == "" {
		name = elements[len(elements)-2]
	}

	return name
''')],
    demo=APP % '''mkdir -p "$app/lib/v2"
printf 'package lib\\n\\ntype Item struct {\\n\\tOld int `json:"old"`\\n}\\n' >"$app/lib/lib.go"
printf 'package lib\\n\\ntype Item struct {\\n\\tNew int `json:"new"`\\n}\\n' >"$app/lib/v2/lib.go"
sed -i 's/c.JSON(http.StatusOK, Local{})/c.JSON(http.StatusOK, lib.Item{}); c.JSON(http.StatusAccepted, lib2.Item{})/; s#^import (#import (\\n\\t"example.com/app/lib"\\n\\tlib2 "example.com/app/lib/v2"#' "$app/main.go"
''' + '''
run -out openapi:api.json || die "$(cat "$scratch/out")"
python3 - "$app/api.json" <<'P' || die "two types share a schema"
import json, sys
d = json.load(open(sys.argv[1]))
r = d['paths']['/local']['get']['responses']
refs = [r[c]['content']['application/json']['schema']['$ref'] for c in ('200', '202')]
assert refs[0] != refs[1], refs
P
'''),

'c17-helper-doc': dict(
    property='C17',
    needs='a documented handler that passes the context to a documented function',
    breaks='the comment of a function that the context is passed on to replaces that of the handler',
    edits=[('inputs/gin/parseFunction.go', '''	if level == 0 {
		funcDoc, err := funcTraverser.Doc()
''', '''	if level == 0 || currRoute.OperationID != "" {
		funcDoc, err := funcTraverser.Doc()
''')],
    demo=APP % '''sed -i 's#^func getLocal.*#// getLocal gets it.\\nfunc getLocal(c *gin.Context) { audit(c); c.JSON(http.StatusOK, Local{}) }\\n\\n// audit writes it down.\\nfunc audit(c *gin.Context) { c.Header("X-Audit", "1") }#' "$app/main.go"
''' + '''
run -out openapi:api.json || die "$(cat "$scratch/out")"
python3 - "$app/api.json" <<'P' || die "described by the comment of another function"
import json, sys
d = json.load(open(sys.argv[1]))
op = d['paths']['/local']['get']
assert op['description'] == 'getLocal gets it.', op
P
'''),

'c17-first-value': dict(
    property='C17',
    needs='a name or status that comes from a variable that is declared together with others',
    breaks='the value of the first variable of a declaration is taken for those of the other ones',
    edits=[('astTraversal/declaration.go', '''		return n.Values[index], nil
''', '''		return n.Values[index*(len(n.Values)-1)/len(n.Names)], nil
''')],
    demo='die unused'),

'c14-trailing-slash': dict(
    property='C14',
    needs='two routes whose paths differ only in a trailing slash',
    breaks='paths that differ in a trailing slash become one path of the OpenAPI document, and one of the routes is lost',
    edits=[('outputs/openapi/generate.go', '''			var endpointPath Path
			if _, ok := paths[endpoint.Path]; !ok {
''', '''			if trimmed := strings.TrimSuffix(endpoint.Path, "/"); trimmed != "" {
				endpoint.Path = trimmed
			}

			var endpointPath Path
			if _, found := paths[endpoint.Path]; !found {
''')],
    demo=APP % '''sed -i 's#r.GET("/local", getLocal)#r.GET("/local", getLocal); r.GET("/local/", listPets)#' "$app/main.go"
''' + '''
run -out openapi:api.json || die "$(cat "$scratch/out")"
python3 - "$app/api.json" <<'P' || die "a route is missing"
import json, sys
d = json.load(open(sys.argv[1]))
assert '/local' in d['paths'] and '/local/' in d['paths'], list(d['paths'])
P
'''),

'c14-deny-rest': dict(
    property='C14',
    needs='a deny list and a route that is not denied and registered (in the order of the router) after a denied one with the same handler',
    breaks='a route whose handler is also that of a denied route is left out',
    edits=[('inputs/gin/createRoutes.go', '''		for _, route := range router.Routes() {
''', '''		deniedHandlers := make(map[string]bool)
		for _, route := range router.Routes() {
'''), ('inputs/gin/createRoutes.go', '''			if denied {
				continue
			}
''', '''			if denied {
				deniedHandlers[route.Handler] = true
			}
			if deniedHandlers[route.Handler] {
				continue
			}
''')],
    demo=APP % '''sed -i 's#r.GET("/local", getLocal)#r.GET("/local", getLocal); r.GET("/local/more", getLocal)#; s#inputs.WithGinInput(r),#inputs.WithGinInput(r), astra.WithPathDenyList("/local"),#' "$app/main.go"
grep -q "func WithPathDenyList(" "$repo"/*.go || broken "no such option"
''' + '''
run -out openapi:api.json || die "$(cat "$scratch/out")"
python3 - "$app/api.json" <<'P' || die "a route is missing"
import json, sys
d = json.load(open(sys.argv[1]))
assert '/local/more' in d['paths'] and '/local' not in d['paths'], list(d['paths'])
P
'''),

'c15-tag-cache': dict(
    property='C15',
    needs='two fields with the same tag that gives no name of its own, such as json:",omitempty"',
    breaks='what a tag says is kept per tag, with the name of the first field that had it',
    edits=[('astTraversal/tags.go', '''func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap) {
	bindingTags := make(BindingTagMap)
''', '''type parsedTag struct {
	bindingTags    BindingTagMap
	validationTags ValidationTagMap
}

// parsedTags are the tags that were parsed already.
var parsedTags sync.Map

func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap) {
	if tag == "" {
		return parseStructTag(field, tag)
	}
	if parsed, ok := parsedTags.Load(tag); ok {
		return parsed.(parsedTag).bindingTags, parsed.(parsedTag).validationTags
	}

	bindingTags, validationTags := parseStructTag(field, tag)
	parsedTags.Store(tag, parsedTag{bindingTags, validationTags})
	return bindingTags, validationTags
}

func parseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap) {
	bindingTags := make(BindingTagMap)
'''), ('astTraversal/tags.go', '''	"reflect"
	"strings"
''', '''	"reflect"
	"strings"
	"sync"
'''), ('astTraversal/tags.go', '''		if tagItems[0] == "" {
''', '''		if len(tagItems[0]) == 0 {
''')],
    demo=APP % '''printf 'package types\\n\\ntype Opt struct {\\n\\tA int `json:",omitempty"`\\n\\tB int `json:",omitempty"`\\n}\\n' >"$app/types/opt.go"
sed -i 's/c.JSON(http.StatusOK, Local{})/c.JSON(http.StatusOK, types.Opt{})/' "$app/main.go"
''' + '''
run -out openapi:api.json || die "$(cat "$scratch/out")"
python3 - "$app/api.json" <<'P' || die "a field is missing"
import json, sys
d = json.load(open(sys.argv[1]))
p = d['components']['schemas']['types.json.Opt' if 'types.json.Opt' in d['components']['schemas'] else 'types.Opt']['properties']
assert sorted(p) == ['A', 'B'], p
P
'''),

'c17-file-of-helper': dict(
    property='C17',
    needs='a handler that goes on with constants or types of its own after it passed the context to a function of another package',
    breaks='after a helper of another package has been parsed, the rest of the handler is read as if it were in the file of the helper',
    edits=[('inputs/gin/parseFunction.go', '''			if !slices.Contains(callers, function.Node.Body) {
				err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), callers)
				traverser.SetActiveFile(activeFile)
				if err != nil {
''', '''			if !slices.Contains(callers, function.Node.Body) {
				err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), callers)
				if err != nil {
'''), ('inputs/gin/parseFunction.go', '''			traverser.SetActiveFile(activeFile)
		} else {
''', '''			traverser.Reset()
		} else {
''')],
    demo=APP % '''mkdir -p "$app/help"
printf 'package help\\n\\nimport "github.com/gin-gonic/gin"\\n\\nfunc Help(c *gin.Context) { c.Header("X-Help", "1") }\\n' >"$app/help/help.go"
sed -i 's/^func getLocal.*/const own = "own"\\n\\nfunc getLocal(c *gin.Context) { help.Help(c); _ = c.Query(own); c.JSON(http.StatusOK, Local{}) }/; s#^import (#import (\\n\\t"example.com/app/help"#' "$app/main.go"
''' + '''
run -out openapi:api.json || die "$(cat "$scratch/out")"
python3 - "$app/api.json" <<'P' || die "the rest of the handler is missing"
import json, sys
d = json.load(open(sys.argv[1]))
op = d['paths']['/local']['get']
assert [p['name'] for p in op['parameters']] == ['own'] and '200' in op['responses'], op
P
'''),
}
del SEEDS['c17-first-value']
