From 83a5825c807f453a04249c96cdcc1ffa469d5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:11 +0000
Subject: [PATCH 01/63] fix: pick the same declaration for an unresolved
 identifier on every run

---
 astTraversal/packageNode.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 1266453..728f8d1 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -122,11 +122,21 @@ func (p *PackageNode) FindObjectForIdentFuzzy(ident *ast.Ident) (types.Object, e
 
 	obj := p.Package.TypesInfo.ObjectOf(ident)
 	if obj == nil {
-		// Try to find the object in the package
+		// Try to find the object in the package, a package level declaration takes precedence
+		obj = p.Package.Types.Scope().Lookup(ident.Name)
+	}
+	if obj == nil {
+		// Otherwise use the first declaration with that name, in the order of the source files
+		var first token.Position
 		for k, v := range p.Package.TypesInfo.Defs {
-			if k.Name == ident.Name {
+			if k.Name != ident.Name || v == nil {
+				continue
+			}
+
+			pos := p.Package.Fset.Position(k.Pos())
+			if obj == nil || pos.Filename < first.Filename || (pos.Filename == first.Filename && pos.Offset < first.Offset) {
 				obj = v
-				break
+				first = pos
 			}
 		}
 
-- 
2.43.0


From 41381dacf68dfe8abe7509a13a9ab0d2481c02d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 02/63] fix: write OpenAPI schemas and parameters in a fixed
 order

---
 outputs/openapi/components.go | 15 ++++++++++++++-
 outputs/openapi/generate.go   | 10 +++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 68405fd..895e913 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -132,6 +132,17 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// sortedFieldNames returns the names of the fields in alphabetical order.
+func sortedFieldNames(fields map[string]astra.Field) []string {
+	names := make([]string, 0, len(fields))
+	for name := range fields {
+		names = append(names, name)
+	}
+	slices.Sort(names)
+
+	return names
+}
+
 // componentToSchema converts a component to a schema.
 func componentToSchema(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (schema Schema, bound bool) {
 	if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
@@ -144,7 +155,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
-		for _, field := range component.StructFields {
+		// The fields are visited in a fixed order, as the order of the embedded schemas (and which field wins if two fields share a name) is visible in the output.
+		for _, fieldName := range sortedFieldNames(component.StructFields) {
+			field := component.StructFields[fieldName]
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7829bbf..1df6048 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -212,9 +212,13 @@ func Generate(filePath string) astra.ServiceFunction {
 				operation.OperationID = endpoint.OperationID
 			}
 
-			// Sort parameters by name
-			sort.Slice(operation.Parameters, func(i, j int) bool {
-				return operation.Parameters[i].Name < operation.Parameters[j].Name
+			// Sort parameters by name and location
+			sort.SliceStable(operation.Parameters, func(i, j int) bool {
+				if operation.Parameters[i].Name != operation.Parameters[j].Name {
+					return operation.Parameters[i].Name < operation.Parameters[j].Name
+				}
+
+				return operation.Parameters[i].In < operation.Parameters[j].In
 			})
 
 			var endpointPath Path
-- 
2.43.0


From 843dc14aa03c84209a9d567b432816cfca4d2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 03/63] fix: replace the cache file atomically

---
 cache.go     | 18 ++++--------------
 writeFile.go | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 14 deletions(-)
 create mode 100644 writeFile.go

diff --git a/cache.go b/cache.go
index c6865bc..84ee019 100644
--- a/cache.go
+++ b/cache.go
@@ -27,19 +27,8 @@ func (s *Service) Cache() error {
 		cachePath = path.Join(s.getAstraDirPath(), cacheFileName)
 	}
 
-	if _, err := os.Stat(cachePath); err == nil {
-		err := s.ClearCache()
-		if err != nil {
-			return err
-		}
-	}
-
-	f, err := os.Create(cachePath)
-	if err != nil {
-		return err
-	}
-
 	var cacheStr []byte
+	var err error
 	if strings.HasSuffix(cachePath, ".yaml") || strings.HasSuffix(cachePath, ".yml") {
 		cacheStr, err = yaml.Marshal(s)
 	} else {
@@ -49,7 +38,8 @@ func (s *Service) Cache() error {
 		return err
 	}
 
-	_, err = f.Write(cacheStr)
+	// The previous cache is only replaced once the new one is complete.
+	err = WriteFile(cachePath, cacheStr, 0644)
 	if err != nil {
 		return err
 	}
@@ -127,7 +117,7 @@ func (s *Service) ClearCache() error {
 		return err
 	}
 
-	if err := os.RemoveAll(cachePath); err != nil {
+	if err := os.Remove(cachePath); err != nil {
 		return err
 	}
 
diff --git a/writeFile.go b/writeFile.go
new file mode 100644
index 0000000..224f4ef
--- /dev/null
+++ b/writeFile.go
@@ -0,0 +1,53 @@
+package astra
+
+import (
+	"errors"
+	"io/fs"
+	"os"
+	"path/filepath"
+)
+
+// WriteFile writes the data to the file, replacing the previous contents as a whole.
+// The data is first written to a temporary file next to the destination, so that the destination always has either its
+// previous or its new contents, even if the process is interrupted or the disk is full.
+// The permissions are only used if the file doesn't exist yet.
+func WriteFile(filePath string, data []byte, perm fs.FileMode) error {
+	info, err := os.Lstat(filePath)
+	if err == nil && info.Mode()&fs.ModeSymlink != 0 {
+		// The file that the link refers to has to be replaced, not the link.
+		var target string
+		target, err = filepath.EvalSymlinks(filePath)
+		if errors.Is(err, fs.ErrNotExist) {
+			return os.WriteFile(filePath, data, perm)
+		}
+		if err != nil {
+			return err
+		}
+		filePath = target
+		info, err = os.Lstat(filePath)
+	}
+
+	exists := err == nil
+	if !exists && !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	if exists && !info.Mode().IsRegular() {
+		// Devices, pipes and the like can't be replaced (and directories are reported as an error).
+		return os.WriteFile(filePath, data, perm)
+	}
+
+	// The name is always the same, so that a file left behind by an interrupted run is reused by the next one.
+	tempPath := filepath.Join(filepath.Dir(filePath), "."+filepath.Base(filePath)+".astra-tmp")
+	err = os.WriteFile(tempPath, data, perm)
+	if err == nil && exists {
+		err = os.Chmod(tempPath, info.Mode().Perm())
+	}
+	if err == nil {
+		err = os.Rename(tempPath, filePath)
+	}
+	if err != nil {
+		_ = os.Remove(tempPath)
+	}
+
+	return err
+}
-- 
2.43.0


From 8b12abff5092ebb689e07fe54f318ec29727d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 04/63] fix: close the cache file after loading it

---
 cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache.go b/cache.go
index 84ee019..05b3bab 100644
--- a/cache.go
+++ b/cache.go
@@ -80,6 +80,7 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	var service Service
 	if strings.HasSuffix(cachePath, ".json") {
-- 
2.43.0


From 9c7f8b3d7a801673cb10aba77eb5aa6e7aad27f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 05/63] fix: close .astra/.gitignore and complete an empty one

---
 dir.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/dir.go b/dir.go
index 3f5870f..6ee0161 100644
--- a/dir.go
+++ b/dir.go
@@ -65,21 +65,12 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 // setupGitIgnore creates the .gitignore file, by default it will ignore all files in the directory.
 func (s *Service) setupGitIgnore() error {
 	gitIgnorePath := path.Join(s.getAstraDirPath(), ".gitignore")
-	if _, err := os.Stat(gitIgnorePath); err == nil {
+	if info, err := os.Stat(gitIgnorePath); err == nil && info.Size() > 0 {
 		return nil
 	}
 
-	f, err := os.Create(gitIgnorePath)
-	if err != nil {
-		return err
-	}
-
-	_, err = f.WriteString("*\n")
-	if err != nil {
-		return err
-	}
-
-	return nil
+	// An empty file is what is left if an earlier run was interrupted while creating it.
+	return WriteFile(gitIgnorePath, []byte("*\n"), 0644)
 }
 
 // cleanupAstraDir removes the .astra directory.
-- 
2.43.0


From 7fe92b1a2d473f14d4144e7d65fca609fced1457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 06/63] fix: start from an empty temporary output directory

---
 dir.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dir.go b/dir.go
index 6ee0161..70a08db 100644
--- a/dir.go
+++ b/dir.go
@@ -34,8 +34,16 @@ func (s *Service) setupAstraDir() error {
 func (s *Service) SetupTempOutputDir(dirPath string) (string, error) {
 	tempDir := path.Join(s.getAstraDirPath(), dirPath)
 
-	err := os.Mkdir(tempDir, 0755)
-	if err != nil {
+	if err := s.setupAstraDir(); err != nil {
+		return "", err
+	}
+
+	// An earlier run may have been interrupted before it could move its directory.
+	if err := os.RemoveAll(tempDir); err != nil {
+		return "", err
+	}
+
+	if err := os.Mkdir(tempDir, 0755); err != nil {
 		return "", err
 	}
 
-- 
2.43.0


From cc2ee0724b969d4063651c2701609dd678961a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 07/63] fix: create .astra before copying the main package

---
 mainPackage.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 7ca4555..c757ab6 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -17,6 +17,12 @@ const mainPackageReplacementPath = astraDir + "/" + mainPackageReplacement
 func (s *Service) setupTempMainPackage() error {
 	var pkgName string
 
+	// The directory doesn't exist yet if the service was loaded from a cache elsewhere.
+	err := s.setupAstraDir()
+	if err != nil {
+		return err
+	}
+
 	newMainPkgPath := path.Join(s.getAstraDirPath(), mainPackageReplacement)
 	if _, err := os.Stat(newMainPkgPath); err == nil {
 		err := os.RemoveAll(newMainPkgPath)
@@ -24,7 +30,7 @@ func (s *Service) setupTempMainPackage() error {
 			return err
 		}
 	}
-	err := os.Mkdir(newMainPkgPath, 0755)
+	err = os.Mkdir(newMainPkgPath, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a197f5638d686534e345351b61e0ce882a6df986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 08/63] fix: accept cached Azure Functions outputs in astra
 generate

---
 cli/astra/cmd/rebind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/astra/cmd/rebind.go b/cli/astra/cmd/rebind.go
index ec4d33a..d549c60 100644
--- a/cli/astra/cmd/rebind.go
+++ b/cli/astra/cmd/rebind.go
@@ -50,7 +50,7 @@ func rebindOutputs(s *astra.Service) error {
 		switch output.Mode {
 		case outputs.OutputModeAzureFunctions:
 			directoryPath, ok := output.Configuration[astra.IOConfigurationKeyDirectoryPath].(string)
-			if ok || directoryPath == "" {
+			if !ok || directoryPath == "" {
 				return astra.ErrOutputDirectoryPathRequired
 			}
 			outputs.WithAzureFunctionsOutput(directoryPath)(s)
-- 
2.43.0


From c2e1d47158214ca635cb52bd02bba6986e189b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 09/63] fix: report failures to clean up

---
 teardown.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/teardown.go b/teardown.go
index 5fe623c..cc333a8 100644
--- a/teardown.go
+++ b/teardown.go
@@ -10,17 +10,17 @@ func (s *Service) Teardown() error {
 		err := s.cleanupAstraDir()
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Error cleaning up temp dir")
-		} else {
-			s.Log.Info().Msg("Cleaning up temp dir complete")
+			return err
 		}
+		s.Log.Info().Msg("Cleaning up temp dir complete")
 	} else {
 		s.Log.Info().Msg("Leaving temp dir but cleaning up main package")
 		err := s.cleanupTempMainPackage()
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Error cleaning up main package")
-		} else {
-			s.Log.Info().Msg("Cleaning up main package complete")
+			return err
 		}
+		s.Log.Info().Msg("Cleaning up main package complete")
 	}
 
 	s.Log.Info().Msg("Tearing down complete")
-- 
2.43.0


From 260fd6edee595d8c5b41e9122d0ac2cbee6b26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 10/63] fix: keep other files in the Azure Functions output
 directory

---
 dir.go                              | 34 ++++++++---
 outputs/azureFunctions/functions.go | 95 +++++++++++++++++++++++++++++
 outputs/azureFunctions/generate.go  | 11 ++--
 3 files changed, 128 insertions(+), 12 deletions(-)
 create mode 100644 outputs/azureFunctions/functions.go

diff --git a/dir.go b/dir.go
index 70a08db..31c8d56 100644
--- a/dir.go
+++ b/dir.go
@@ -54,20 +54,38 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 	sourcePath := path.Join(s.getAstraDirPath(), dirPath)
 	destinationPath := path.Join(s.WorkDir, outputDir)
 
-	_, err := os.Stat(destinationPath)
-	if !errors.Is(err, fs.ErrNotExist) {
-		err := os.RemoveAll(destinationPath)
-		if err != nil {
-			return err
-		}
+	return moveTree(sourcePath, destinationPath)
+}
+
+// moveTree moves a file or directory to the destination.
+// If the destination is an existing directory, it keeps its other contents, as it isn't necessarily a directory of our own.
+func moveTree(sourcePath, destinationPath string) error {
+	source, err := os.Stat(sourcePath)
+	if err != nil {
+		return err
 	}
 
-	err = os.Rename(sourcePath, destinationPath)
+	destination, err := os.Stat(destinationPath)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	if err != nil || !source.IsDir() || !destination.IsDir() {
+		return os.Rename(sourcePath, destinationPath)
+	}
+
+	entries, err := os.ReadDir(sourcePath)
 	if err != nil {
 		return err
 	}
 
-	return nil
+	for _, entry := range entries {
+		err := moveTree(path.Join(sourcePath, entry.Name()), path.Join(destinationPath, entry.Name()))
+		if err != nil {
+			return err
+		}
+	}
+
+	return os.Remove(sourcePath)
 }
 
 // setupGitIgnore creates the .gitignore file, by default it will ignore all files in the directory.
diff --git a/outputs/azureFunctions/functions.go b/outputs/azureFunctions/functions.go
new file mode 100644
index 0000000..dabd667
--- /dev/null
+++ b/outputs/azureFunctions/functions.go
@@ -0,0 +1,95 @@
+package azureFunctions
+
+import (
+	"encoding/json"
+	"os"
+	"path"
+	"strings"
+
+	"github.com/ls6-events/astra"
+)
+
+// functionName returns the name of the function (and so of its directory) for the route.
+func functionName(route astra.Route) string {
+	splitHandler := strings.Split(route.Handler, ".")
+
+	return splitHandler[len(splitHandler)-1]
+}
+
+// removeStaleFunctions removes the functions that earlier runs generated for routes that don't exist anymore.
+// The directory can contain anything else as well (i.e. functions with other triggers), which is left as it is.
+func removeStaleFunctions(s *astra.Service, outputDirectory string) error {
+	directoryPath := path.Join(s.WorkDir, outputDirectory)
+
+	current := make(map[string]bool)
+	for _, route := range s.Routes {
+		current[functionName(route)] = true
+	}
+
+	entries, err := os.ReadDir(directoryPath)
+	if err != nil {
+		return err
+	}
+
+	var stale []string
+	for _, entry := range entries {
+		if !entry.IsDir() || strings.HasPrefix(entry.Name(), ".") || current[entry.Name()] {
+			continue
+		}
+
+		functionDirectoryPath := path.Join(directoryPath, entry.Name())
+		files, err := os.ReadDir(functionDirectoryPath)
+		if err != nil {
+			return err
+		}
+		if len(files) != 1 || files[0].Name() != outputFile || !files[0].Type().IsRegular() {
+			continue
+		}
+
+		file, err := os.ReadFile(path.Join(functionDirectoryPath, outputFile))
+		if err != nil {
+			return err
+		}
+		if isGenerated(file) {
+			stale = append(stale, entry.Name())
+		}
+	}
+
+	if len(stale) == 0 {
+		return nil
+	}
+
+	// Every function is removed as a whole, by moving it to the temporary directory first.
+	tempOutputDirectoryPath, err := s.SetupTempOutputDir(tempOutputDir)
+	if err != nil {
+		return err
+	}
+
+	for _, name := range stale {
+		err = os.Rename(path.Join(directoryPath, name), path.Join(tempOutputDirectoryPath, name))
+		if err != nil {
+			return err
+		}
+	}
+
+	return os.RemoveAll(tempOutputDirectoryPath)
+}
+
+// isGenerated returns whether the function definition is one of ours.
+func isGenerated(file []byte) bool {
+	var output AzureFunctionsOutput
+	err := json.Unmarshal(file, &output)
+	if err != nil || len(output.Bindings) != 2 {
+		return false
+	}
+
+	in, out := output.Bindings[0], output.Bindings[1]
+	if in.Type != "httpTrigger" || in.Direction != "in" || in.Name != "req" || len(in.Methods) != 2 || in.Methods[1] != "options" ||
+		out.Type != "http" || out.Direction != "out" || out.Name != "res" {
+		return false
+	}
+
+	generated, err := json.MarshalIndent(output, "", "  ")
+
+	return err == nil && string(generated) == string(file)
+}
diff --git a/outputs/azureFunctions/generate.go b/outputs/azureFunctions/generate.go
index 024eb1c..23bd242 100644
--- a/outputs/azureFunctions/generate.go
+++ b/outputs/azureFunctions/generate.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"os"
 	"path"
-	"strings"
 
 	"github.com/ls6-events/astra"
 )
@@ -35,9 +34,7 @@ func Generate(directoryPath string) astra.ServiceFunction {
 		}
 
 		for _, route := range s.Routes {
-			splitHandler := strings.Split(route.Handler, ".")
-			funcName := splitHandler[len(splitHandler)-1]
-
+			funcName := functionName(route)
 			functionDirectoryPath := path.Join(tempOutputDirectoryPath, funcName)
 			filePath := path.Join(functionDirectoryPath, outputFile)
 
@@ -85,6 +82,12 @@ func Generate(directoryPath string) astra.ServiceFunction {
 			return err
 		}
 
+		err = removeStaleFunctions(s, directoryPath)
+		if err != nil {
+			s.Log.Error().Err(err).Msg("Failed to remove functions of earlier runs")
+			return err
+		}
+
 		s.Log.Info().Msg("Generated JSON output")
 		return nil
 	}
-- 
2.43.0


From e7b9e9d4e028c588464b820520040a54115368c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 11/63] fix: replace output files atomically

---
 outputs/json/generate.go    | 3 +--
 outputs/openapi/generate.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/outputs/json/generate.go b/outputs/json/generate.go
index a51b1f3..91510fe 100644
--- a/outputs/json/generate.go
+++ b/outputs/json/generate.go
@@ -2,7 +2,6 @@ package json
 
 import (
 	"encoding/json"
-	"os"
 	"path"
 	"strings"
 
@@ -40,7 +39,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 		s.Log.Debug().Str("filePath", filePath).Msg("Writing JSON output to file")
 		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		err = astra.WriteFile(filePath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write JSON output to file")
 			return err
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 1df6048..8790229 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
-	"os"
 	"path"
 	"reflect"
 	"sort"
@@ -318,7 +317,7 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 
 		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		err = astra.WriteFile(filePath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write OpenAPI schema file")
 			return err
-- 
2.43.0


From 24d90497f45f67524e10f31bbd908b475a942566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 12/63] fix: leave functions out of YAML caches

---
 input.go   | 6 +++---
 output.go  | 6 +++---
 service.go | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/input.go b/input.go
index d74e0e1..08a5039 100644
--- a/input.go
+++ b/input.go
@@ -2,9 +2,9 @@ package astra
 
 // Input is the input for the generator.
 type Input struct {
-	Mode         InputMode       `json:"mode"`
-	CreateRoutes ServiceFunction `json:"-"`
-	ParseRoutes  ServiceFunction `json:"-"`
+	Mode         InputMode       `json:"mode" yaml:"mode"`
+	CreateRoutes ServiceFunction `json:"-" yaml:"-"`
+	ParseRoutes  ServiceFunction `json:"-" yaml:"-"`
 }
 
 type InputMode string
diff --git a/output.go b/output.go
index 8f08481..e0c3e09 100644
--- a/output.go
+++ b/output.go
@@ -3,9 +3,9 @@ package astra
 // Output is the output for the generator
 // It takes in a configuration object to allow the caching mechanism to store the file paths for the outputs.
 type Output struct {
-	Mode          OutputMode      `json:"mode"`
-	Generate      ServiceFunction `json:"-"`
-	Configuration IOConfiguration `json:"configuration"`
+	Mode          OutputMode      `json:"mode" yaml:"mode"`
+	Generate      ServiceFunction `json:"-" yaml:"-"`
+	Configuration IOConfiguration `json:"configuration" yaml:"configuration"`
 }
 
 type OutputMode string
diff --git a/service.go b/service.go
index e6431cc..436ad55 100644
--- a/service.go
+++ b/service.go
@@ -21,7 +21,7 @@ type Service struct {
 	Inputs  []Input  `json:"inputs" yaml:"inputs"`
 	Outputs []Output `json:"outputs" yaml:"outputs"`
 
-	Log zerolog.Logger `json:"-"`
+	Log zerolog.Logger `json:"-" yaml:"-"`
 
 	Config *Config `json:"config" yaml:"config"`
 
@@ -32,9 +32,9 @@ type Service struct {
 	tempMainPackageName string
 	WorkDir             string `json:"-" yaml:"-"`
 
-	CacheEnabled bool    `json:"-"`
-	CachePath    string  `json:"-"`
-	CLIMode      CLIMode `json:"-"`
+	CacheEnabled bool    `json:"-" yaml:"-"`
+	CachePath    string  `json:"-" yaml:"-"`
+	CLIMode      CLIMode `json:"-" yaml:"-"`
 
 	PathDenyList []func(string) bool `json:"-" yaml:"-"`
 
-- 
2.43.0


From 8830985e032e50811635d0684efa758a0161a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 13/63] fix: restore custom type mappings from the cache

---
 cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cache.go b/cache.go
index 05b3bab..f5a30eb 100644
--- a/cache.go
+++ b/cache.go
@@ -100,6 +100,8 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	s.Config = service.Config
 	s.Routes = service.Routes
 	s.Components = service.Components
+	s.CustomTypeMapping = service.CustomTypeMapping
+	s.fullTypeMapping = nil
 	return nil
 }
 
-- 
2.43.0


From cc3a71bdc4054465cba19d552447e7fb95017481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 14/63] fix: create services concurrently

---
 new.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/new.go b/new.go
index d34d558..6ef5905 100644
--- a/new.go
+++ b/new.go
@@ -2,20 +2,26 @@ package astra
 
 import (
 	"os"
+	"sync"
 
 	"github.com/rs/zerolog"
 	"github.com/rs/zerolog/log"
 	"github.com/rs/zerolog/pkgerrors"
 )
 
+// setErrorStackMarshaler ensures that services can be created concurrently.
+var setErrorStackMarshaler sync.Once
+
 // New creates a new generator service.
 // It takes in a list of options that can be used to configure the generator.
 // It will also setup the logger for the generator and setup the slices that are used to store the routes, inputs, outputs and components.
 func New(opts ...Option) *Service {
 	s := &Service{}
 
-	//nolint:reassign // This is needed to set the stack trace marshaling function.
-	zerolog.ErrorStackMarshaler = pkgerrors.MarshalStack
+	setErrorStackMarshaler.Do(func() {
+		//nolint:reassign // This is needed to set the stack trace marshaling function.
+		zerolog.ErrorStackMarshaler = pkgerrors.MarshalStack
+	})
 	s.Log = log.Output(zerolog.ConsoleWriter{Out: os.Stdout}).Level(zerolog.InfoLevel)
 
 	s.Routes = make([]Route, 0)
-- 
2.43.0


From 46c7bfd9591c550e2c9ef63caece4988834074ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 15/63] fix: leave the caller's configuration unchanged when
 generating

---
 outputs/openapi/generate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 8790229..4d5db87 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -274,8 +274,9 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 		s.Log.Debug().Msg("Added components")
 
-		if s.Config.Description == "" {
-			s.Config.Description = "Generated by astra"
+		description := s.Config.Description
+		if description == "" {
+			description = "Generated by astra"
 		}
 
 		s.Log.Debug().Msg("Generating OpenAPI schema file")
@@ -283,7 +284,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			OpenAPI: "3.0.0",
 			Info: Info{
 				Title:       s.Config.Title,
-				Description: s.Config.Description,
+				Description: description,
 				Contact:     Contact(s.Config.Contact),
 				License:     License(s.Config.License),
 				Version:     s.Config.Version,
-- 
2.43.0


From 26be2b13bb09e5a5fb786ad44ebab7e7ea1e9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:05 +0000
Subject: [PATCH 16/63] fix: keep the types of enum values in the cache

---
 cache.go      | 12 ++++++++-
 cacheEnums.go | 73 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+), 1 deletion(-)
 create mode 100644 cacheEnums.go

diff --git a/cache.go b/cache.go
index f5a30eb..cecf924 100644
--- a/cache.go
+++ b/cache.go
@@ -84,7 +84,9 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 
 	var service Service
 	if strings.HasSuffix(cachePath, ".json") {
-		err = json.NewDecoder(f).Decode(&service)
+		decoder := json.NewDecoder(f)
+		decoder.UseNumber() // So that the enum values aren't all decoded as floating point numbers.
+		err = decoder.Decode(&service)
 	} else if strings.HasSuffix(cachePath, ".yaml") || strings.HasSuffix(cachePath, ".yml") {
 		err = yaml.NewDecoder(f).Decode(&service)
 	} else {
@@ -95,12 +97,20 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 		return err
 	}
 
+	err = service.restoreEnumValues()
+	if err != nil {
+		return err
+	}
+
 	s.Inputs = service.Inputs
 	s.Outputs = service.Outputs
 	s.Config = service.Config
 	s.Routes = service.Routes
 	s.Components = service.Components
 	s.CustomTypeMapping = service.CustomTypeMapping
+	if s.CustomTypeMapping == nil {
+		s.CustomTypeMapping = make(map[string]TypeFormat)
+	}
 	s.fullTypeMapping = nil
 	return nil
 }
diff --git a/cacheEnums.go b/cacheEnums.go
new file mode 100644
index 0000000..1520e0f
--- /dev/null
+++ b/cacheEnums.go
@@ -0,0 +1,73 @@
+package astra
+
+import (
+	"encoding/json"
+	"strings"
+)
+
+// restoreEnumValues changes the enum values of a service that was decoded from a JSON cache to the types that they had before they were cached.
+func (s *Service) restoreEnumValues() error {
+	for i := range s.Components {
+		if err := s.Components[i].restoreEnumValues(); err != nil {
+			return err
+		}
+	}
+
+	for i := range s.Routes {
+		route := &s.Routes[i]
+
+		for _, params := range [][]Param{route.PathParams, route.QueryParams, route.RequestHeaders, route.ResponseHeaders} {
+			for j := range params {
+				if err := params[j].Field.restoreEnumValues(); err != nil {
+					return err
+				}
+			}
+		}
+		for j := range route.Body {
+			if err := route.Body[j].Field.restoreEnumValues(); err != nil {
+				return err
+			}
+		}
+		for j := range route.ReturnTypes {
+			if err := route.ReturnTypes[j].Field.restoreEnumValues(); err != nil {
+				return err
+			}
+		}
+	}
+
+	return nil
+}
+
+// restoreEnumValues changes the enum values of the field (and of its own fields) according to the type of the field.
+func (f *Field) restoreEnumValues() error {
+	for i, value := range f.EnumValues {
+		number, ok := value.(json.Number)
+		if !ok {
+			continue
+		}
+
+		var err error
+		switch {
+		case strings.HasPrefix(f.Type, "float"):
+			f.EnumValues[i], err = number.Float64()
+		case strings.HasPrefix(f.Type, "uint"):
+			var unsigned uint64
+			err = json.Unmarshal([]byte(number), &unsigned)
+			f.EnumValues[i] = unsigned
+		default:
+			f.EnumValues[i], err = number.Int64()
+		}
+		if err != nil {
+			return err
+		}
+	}
+
+	for name, structField := range f.StructFields {
+		if err := structField.restoreEnumValues(); err != nil {
+			return err
+		}
+		f.StructFields[name] = structField
+	}
+
+	return nil
+}
-- 
2.43.0


From bb337543d2962a05727ba155a895a5c5689a5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 17/63] fix: look up the documentation of a field in the
 package that declares it

---
 astTraversal/type.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index aca6adf..fef92cf 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -227,12 +227,13 @@ func (t *TypeTraverser) Result() (Result, error) {
 				if err != nil {
 					return Result{}, err
 				}
+			}
 
-				pos := f.Pos()
-
-				node, err := structFieldResult.Package.ASTAtPos(pos)
+			// The position of the field is only meaningful in the package that it was loaded with.
+			if t.Package != nil && t.Package.Package != nil && f.Pkg() == t.Package.Package.Types {
+				node, err := t.Package.ASTAtPos(f.Pos())
 				if err == nil && node != nil {
-					if field, ok := node.(*ast.Field); ok {
+					if field, ok := node.(*ast.Field); ok && len(field.Names) > 0 {
 						t.Traverser.Log.Debug().Str("field", field.Names[0].Name).Msg("Found doc for field")
 						structFieldResult.Doc = FormatDoc(field.Doc.Text())
 					}
-- 
2.43.0


From 27b63db155244e4b702b32d4015a5263e7da96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 18/63] fix: keep the route if a call of its handler cannot be
 described

---
 inputs/gin/parseFunction.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index bba2ef9..9ff0b8a 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -52,6 +52,15 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		if n == nil {
 			return true
 		}
+
+		// If the call can't be described, carry on with the route as it is
+		prevRoute := currRoute
+		defer func() {
+			if currRoute == nil {
+				currRoute = prevRoute
+			}
+		}()
+
 		// If a function is called
 		var callExpr *astTraversal.CallExpressionTraverser
 		callExpr, err = traverser.CallExpression(n)
-- 
2.43.0


From 79c1ca4a327ec69fc2b502dc59b32f5beb583e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 19/63] fix: fail if a package that a route needs cannot be
 loaded

---
 astTraversal/packageManager.go | 15 +++++++++++++++
 inputs/gin/parseRoute.go       |  4 +++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/astTraversal/packageManager.go b/astTraversal/packageManager.go
index f28da2a..8668874 100644
--- a/astTraversal/packageManager.go
+++ b/astTraversal/packageManager.go
@@ -15,6 +15,7 @@ type PackageManager struct {
 	tree        *PackageNode
 	workDir     string
 	pathLoaders []PackagePathLoader
+	loadErr     error
 }
 
 func NewPackageManager(workDir string) *PackageManager {
@@ -74,6 +75,12 @@ func (pm *PackageManager) Get(n *PackageNode) (*packages.Package, error) {
 		}
 		pkg, err := LoadPackage(path, pm.workDir)
 		if err != nil {
+			pm.mu.Lock()
+			if pm.loadErr == nil {
+				pm.loadErr = err
+			}
+			pm.mu.Unlock()
+
 			return nil, err
 		}
 
@@ -92,6 +99,14 @@ func (pm *PackageManager) Get(n *PackageNode) (*packages.Package, error) {
 	return n.Package, nil
 }
 
+// LoadErr returns the error of the first package that couldn't be loaded, if there was any.
+func (pm *PackageManager) LoadErr() error {
+	pm.mu.Lock()
+	defer pm.mu.Unlock()
+
+	return pm.loadErr
+}
+
 func (pm *PackageManager) Find(path string) *PackageNode {
 	pm.mu.Lock()
 	defer pm.mu.Unlock()
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index fbd814b..32ccdfe 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -153,7 +153,9 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return true
 	})
 
-	if err != nil {
+	// The parts of a function that can't be described are left out, but not because of a package that can't be loaded.
+	if err := traverser.Packages.LoadErr(); err != nil {
+		log.Error().Err(err).Msg("Failed to load a package")
 		return err
 	}
 
-- 
2.43.0


From ef30b8c9e9ee17dbab2b1b2264a591f2598c7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:03 +0000
Subject: [PATCH 20/63] fix: do not share loaded packages between working
 directories and runs

---
 astTraversal/loadPackage.go | 35 ++++++++++++++++++++++++++++++++---
 inputs/gin/parseRoutes.go   |  5 +++++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/astTraversal/loadPackage.go b/astTraversal/loadPackage.go
index 0fe9305..6fd1778 100644
--- a/astTraversal/loadPackage.go
+++ b/astTraversal/loadPackage.go
@@ -2,16 +2,43 @@ package astTraversal
 
 import (
 	"fmt"
+	"strings"
+	"sync"
 
 	"golang.org/x/tools/go/packages"
 )
 
-var cachedPackages = make(map[string]*packages.Package)
+var (
+	cachedPackages      = make(map[string]*packages.Package)
+	cachedPackagesMutex sync.Mutex
+)
+
+// cachedPackageKey returns the key of the package in the cache, as the same path can be another package in another directory.
+func cachedPackageKey(pkgPath string, workDir string) string {
+	return workDir + "\x00" + pkgPath
+}
+
+// ClearPackageCache removes the packages that were loaded from the directory from the cache, as their source can have changed.
+func ClearPackageCache(workDir string) {
+	cachedPackagesMutex.Lock()
+	defer cachedPackagesMutex.Unlock()
+
+	for key := range cachedPackages {
+		if strings.HasPrefix(key, cachedPackageKey("", workDir)) {
+			delete(cachedPackages, key)
+		}
+	}
+}
 
 // LoadPackage loads a package from a path.
 // Because of the way the packages.Load function works, we cache the packages to avoid loading the same package multiple times.
 func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
-	if pkg, ok := cachedPackages[pkgPath]; ok {
+	key := cachedPackageKey(pkgPath, workDir)
+
+	cachedPackagesMutex.Lock()
+	pkg, ok := cachedPackages[key]
+	cachedPackagesMutex.Unlock()
+	if ok {
 		return pkg, nil
 	}
 
@@ -20,7 +47,9 @@ func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
 		return nil, err
 	}
 
-	cachedPackages[pkgPath] = pkg
+	cachedPackagesMutex.Lock()
+	cachedPackages[key] = pkg
+	cachedPackagesMutex.Unlock()
 
 	return pkg, nil
 }
diff --git a/inputs/gin/parseRoutes.go b/inputs/gin/parseRoutes.go
index 7c028d2..a7a574a 100644
--- a/inputs/gin/parseRoutes.go
+++ b/inputs/gin/parseRoutes.go
@@ -2,6 +2,7 @@ package gin
 
 import (
 	"github.com/ls6-events/astra"
+	"github.com/ls6-events/astra/astTraversal"
 )
 
 // ParseRoutes parses routes from a gin routes.
@@ -11,6 +12,10 @@ import (
 func ParseRoutes() astra.ServiceFunction {
 	return func(s *astra.Service) error {
 		s.Log.Debug().Msg("Populating routes from gin routes")
+
+		// The packages could have been changed since an earlier run in the same process
+		astTraversal.ClearPackageCache(s.WorkDir)
+
 		for _, route := range s.Routes {
 			s.Log.Debug().Str("path", route.Path).Str("method", route.Method).Msg("Populating route")
 
-- 
2.43.0


From 1519a57796f329af9b143e170609cdf32ecd1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:04 +0000
Subject: [PATCH 21/63] fix: do not share OpenAPI component names between
 services

---
 outputs/openapi/components.go | 7 +++++++
 outputs/openapi/generate.go   | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 895e913..45df690 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -3,6 +3,7 @@ package openapi
 import (
 	"slices"
 	"strings"
+	"sync"
 
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
@@ -11,6 +12,9 @@ import (
 // collisionSafeNames is a map of a full name package path to a collision safe name.
 var collisionSafeNames = make(map[string]string)
 
+// collisionSafeNamesMutex is held by the service that is using the collisionSafeNames.
+var collisionSafeNamesMutex sync.Mutex
+
 // collisionSafeKey creates a key for the collisionSafeNames map.
 func collisionSafeKey(bindingType astTraversal.BindingTagType, name, pkg string) string {
 	var keyComponents []string
@@ -33,6 +37,9 @@ func getPackageName(pkg string) string {
 // This needs to be run before any routes or components are generated.
 // As the makeComponentRefName function relies on the collisionSafeNames map.
 func makeCollisionSafeNamesFromComponents(components []astra.Field) {
+	// The names of an earlier run aren't valid anymore.
+	clear(collisionSafeNames)
+
 	// Group the components by package name.
 	packageNames := make(map[string][]astra.Field)
 	for _, component := range components {
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 4d5db87..cd846f6 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -29,6 +29,9 @@ func Generate(filePath string) astra.ServiceFunction {
 			return astra.ErrConfigNotFound
 		}
 
+		collisionSafeNamesMutex.Lock()
+		defer collisionSafeNamesMutex.Unlock()
+
 		s.Log.Debug().Msg("Making collision safe struct names")
 		makeCollisionSafeNamesFromComponents(s.Components)
 
-- 
2.43.0


From 68c8e2525a06dcbb512312c780c34c4b6304f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:04 +0000
Subject: [PATCH 22/63] fix: start over when the same service is generated
 again

---
 dir.go                    |  2 ++
 inputs/gin/createRoute.go |  8 ++++++++
 inputs/gin/parseRoute.go  |  9 +++++++++
 mainPackage.go            | 11 ++++-------
 parseRoutes.go            |  4 ++++
 5 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/dir.go b/dir.go
index 31c8d56..df34eae 100644
--- a/dir.go
+++ b/dir.go
@@ -101,6 +101,8 @@ func (s *Service) setupGitIgnore() error {
 
 // cleanupAstraDir removes the .astra directory.
 func (s *Service) cleanupAstraDir() error {
+	s.tempMainPackageName = "" // The temporary main package is in the directory.
+
 	if err := os.RemoveAll(s.getAstraDirPath()); err != nil {
 		return err
 	}
diff --git a/inputs/gin/createRoute.go b/inputs/gin/createRoute.go
index 5d553f4..4e09d1d 100644
--- a/inputs/gin/createRoute.go
+++ b/inputs/gin/createRoute.go
@@ -39,6 +39,14 @@ func createRoute(s *astra.Service, file string, line int, info gin.RouteInfo) er
 		ReturnTypes: make([]astra.ReturnType, 0),
 	}
 
+	for _, route := range s.Routes {
+		if route.Handler == baseRoute.Handler && route.File == baseRoute.File && route.LineNo == baseRoute.LineNo &&
+			route.Path == baseRoute.Path && route.Method == baseRoute.Method {
+			log.Debug().Msg("Route was already created by an earlier run")
+			return nil
+		}
+	}
+
 	s.AddRoute(baseRoute)
 
 	log.Debug().Msg("Populated route")
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 32ccdfe..bc2f90e 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -69,6 +69,15 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
+	// The route can already be populated by an earlier run (or by the run that wrote the cache)
+	baseRoute.QueryParams = make([]astra.Param, 0)
+	baseRoute.Body = make([]astra.BodyParam, 0)
+	baseRoute.ReturnTypes = make([]astra.ReturnType, 0)
+	baseRoute.RequestHeaders = nil
+	baseRoute.ResponseHeaders = nil
+	baseRoute.Doc = ""
+	baseRoute.OperationID = ""
+
 	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
 	if len(baseRoute.PathParams) > 0 {
 		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
diff --git a/mainPackage.go b/mainPackage.go
index c757ab6..8dea5f6 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -75,14 +75,11 @@ func (s *Service) setupTempMainPackage() error {
 
 // cleanupTempMainPackage removes the temporary main package.
 func (s *Service) cleanupTempMainPackage() error {
+	s.tempMainPackageName = "" // It has to be copied again, should it be required again.
+
 	newMainPkgPath := path.Join(s.getAstraDirPath(), mainPackageReplacement)
-	if _, err := os.Stat(newMainPkgPath); err == nil {
-		err := os.RemoveAll(newMainPkgPath)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+
+	return os.RemoveAll(newMainPkgPath)
 }
 
 // GetMainPackageName returns the name of the temporary main package.
diff --git a/parseRoutes.go b/parseRoutes.go
index fddb5ac..da2764d 100644
--- a/parseRoutes.go
+++ b/parseRoutes.go
@@ -4,6 +4,10 @@ package astra
 // CreateRoutes should be called before ParseRoutes.
 func (s *Service) ParseRoutes() error {
 	s.Log.Info().Msg("Parsing routes from inputs")
+
+	// The components are found again while the routes are parsed.
+	s.Components = make([]Field, 0)
+
 	for _, input := range s.Inputs {
 		s.Log.Info().Str("mode", string(input.Mode)).Msg("Parsing routes from input")
 		err := input.ParseRoutes(s)
-- 
2.43.0


From 3fb41f063c64267fd7a58693d7daeb4c3d52a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 23/63] fix: populate routes of several inputs that share a
 path

---
 inputs/gin/parseRoutes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseRoutes.go b/inputs/gin/parseRoutes.go
index a7a574a..0b38424 100644
--- a/inputs/gin/parseRoutes.go
+++ b/inputs/gin/parseRoutes.go
@@ -16,7 +16,7 @@ func ParseRoutes() astra.ServiceFunction {
 		// The packages could have been changed since an earlier run in the same process
 		astTraversal.ClearPackageCache(s.WorkDir)
 
-		for _, route := range s.Routes {
+		for i, route := range s.Routes {
 			s.Log.Debug().Str("path", route.Path).Str("method", route.Method).Msg("Populating route")
 
 			s.Log.Debug().Str("path", route.Path).Str("method", route.Method).Str("file", route.File).Int("line", route.LineNo).Msg("Parsing route")
@@ -26,7 +26,7 @@ func ParseRoutes() astra.ServiceFunction {
 				return err
 			}
 
-			s.ReplaceRoute(route)
+			s.Routes[i] = route
 		}
 		s.Log.Debug().Msg("Populated service with gin routes")
 
-- 
2.43.0


From c03875527b664a31b3a817eced851316695443a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 24/63] fix: replace a read-only temporary file left by an
 interrupted run

---
 writeFile.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/writeFile.go b/writeFile.go
index 224f4ef..9ab18c7 100644
--- a/writeFile.go
+++ b/writeFile.go
@@ -36,8 +36,13 @@ func WriteFile(filePath string, data []byte, perm fs.FileMode) error {
 		return os.WriteFile(filePath, data, perm)
 	}
 
-	// The name is always the same, so that a file left behind by an interrupted run is reused by the next one.
+	// The name is always the same, so that a file left behind by an interrupted run is replaced by the next one.
 	tempPath := filepath.Join(filepath.Dir(filePath), "."+filepath.Base(filePath)+".astra-tmp")
+	err = os.Remove(tempPath)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+
 	err = os.WriteFile(tempPath, data, perm)
 	if err == nil && exists {
 		err = os.Chmod(tempPath, info.Mode().Perm())
-- 
2.43.0


From aee003502167fc98256ad91710105e90eeb4c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 25/63] fix: keep the output path when a service generates its
 outputs again

---
 outputs/json/generate.go    | 4 ++--
 outputs/openapi/generate.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/outputs/json/generate.go b/outputs/json/generate.go
index 91510fe..09b278c 100644
--- a/outputs/json/generate.go
+++ b/outputs/json/generate.go
@@ -38,8 +38,8 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 
 		s.Log.Debug().Str("filePath", filePath).Msg("Writing JSON output to file")
-		filePath = path.Join(s.WorkDir, filePath)
-		err = astra.WriteFile(filePath, file, 0644)
+		outputPath := path.Join(s.WorkDir, filePath)
+		err = astra.WriteFile(outputPath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write JSON output to file")
 			return err
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index cd846f6..5c90b15 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -320,14 +320,14 @@ func Generate(filePath string) astra.ServiceFunction {
 			return err
 		}
 
-		filePath = path.Join(s.WorkDir, filePath)
-		err = astra.WriteFile(filePath, file, 0644)
+		outputPath := path.Join(s.WorkDir, filePath)
+		err = astra.WriteFile(outputPath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write OpenAPI schema file")
 			return err
 		}
 
-		s.Log.Debug().Str("filePath", filePath).Msg("Successfully generated OpenAPI schema file")
+		s.Log.Debug().Str("filePath", outputPath).Msg("Successfully generated OpenAPI schema file")
 
 		return nil
 	}
-- 
2.43.0


From b1fb4d16656609563ad52ebfe91f31b7fda9f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:14 +0000
Subject: [PATCH 26/63] fix: copy the main package again when routes are parsed
 again

---
 parseRoutes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parseRoutes.go b/parseRoutes.go
index da2764d..46c948a 100644
--- a/parseRoutes.go
+++ b/parseRoutes.go
@@ -8,6 +8,9 @@ func (s *Service) ParseRoutes() error {
 	// The components are found again while the routes are parsed.
 	s.Components = make([]Field, 0)
 
+	// The main package is copied again when it's required, as an earlier run could have left an outdated copy.
+	s.tempMainPackageName = ""
+
 	for _, input := range s.Inputs {
 		s.Log.Info().Str("mode", string(input.Mode)).Msg("Parsing routes from input")
 		err := input.ParseRoutes(s)
-- 
2.43.0


From 596babf6d758e4718a1e24fb511b88c9941e5e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 27/63] fix: fail if a type cannot be resolved

---
 astTraversal/errors.go         |  1 +
 astTraversal/packageManager.go | 20 +++++++++++++-------
 astTraversal/type.go           |  5 +++++
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/astTraversal/errors.go b/astTraversal/errors.go
index 4145b13..a767340 100644
--- a/astTraversal/errors.go
+++ b/astTraversal/errors.go
@@ -6,4 +6,5 @@ var (
 	ErrInvalidNodeType = errors.New("invalid node type")
 	ErrInvalidIndex    = errors.New("invalid return index")
 	ErrBuiltInFunction = errors.New("builtin function")
+	ErrUnresolvedType  = errors.New("unresolved type")
 )
diff --git a/astTraversal/packageManager.go b/astTraversal/packageManager.go
index 8668874..d2de7fd 100644
--- a/astTraversal/packageManager.go
+++ b/astTraversal/packageManager.go
@@ -75,13 +75,7 @@ func (pm *PackageManager) Get(n *PackageNode) (*packages.Package, error) {
 		}
 		pkg, err := LoadPackage(path, pm.workDir)
 		if err != nil {
-			pm.mu.Lock()
-			if pm.loadErr == nil {
-				pm.loadErr = err
-			}
-			pm.mu.Unlock()
-
-			return nil, err
+			return nil, pm.failLoad(err)
 		}
 
 		n.Package = pkg
@@ -99,6 +93,18 @@ func (pm *PackageManager) Get(n *PackageNode) (*packages.Package, error) {
 	return n.Package, nil
 }
 
+// failLoad keeps the error of the first package that couldn't be loaded.
+func (pm *PackageManager) failLoad(err error) error {
+	pm.mu.Lock()
+	defer pm.mu.Unlock()
+
+	if pm.loadErr == nil {
+		pm.loadErr = err
+	}
+
+	return err
+}
+
 // LoadErr returns the error of the first package that couldn't be loaded, if there was any.
 func (pm *PackageManager) LoadErr() error {
 	pm.mu.Lock()
diff --git a/astTraversal/type.go b/astTraversal/type.go
index fef92cf..c49b177 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -34,6 +34,11 @@ func (t *TypeTraverser) Result() (Result, error) {
 	var result Result
 	switch n := t.Node.(type) {
 	case *types.Basic:
+		// The package that declares the type couldn't be loaded
+		if n.Kind() == types.Invalid {
+			return Result{}, t.Traverser.Packages.failLoad(ErrUnresolvedType)
+		}
+
 		result = Result{
 			Type:    n.Name(),
 			Package: t.Package,
-- 
2.43.0


From 1ea228413bb336db4eb2a1db7841261d30093c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:04 +0000
Subject: [PATCH 28/63] fix: end the traversal of types that refer to
 themselves

---
 astTraversal/traverser.go | 14 ++++++++++++++
 astTraversal/type.go      |  5 ++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 846e597..e5bf638 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -3,6 +3,7 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/types"
 
 	"github.com/rs/zerolog"
 )
@@ -14,6 +15,8 @@ type BaseTraverser struct {
 	Packages           *PackageManager
 	shouldAddComponent bool
 	addComponent       func(result Result) error
+	// addingComponents are the named types that are being traversed to add them as components
+	addingComponents []*types.Named
 }
 
 func New(workDir string) *BaseTraverser {
@@ -139,3 +142,14 @@ func (t *BaseTraverser) SetAddComponentFunction(addComponent func(result Result)
 	t.shouldAddComponent = true
 	return t
 }
+
+// isAddingComponent returns whether the type is being traversed to add it as a component.
+func (t *BaseTraverser) isAddingComponent(named *types.Named) bool {
+	for _, adding := range t.addingComponents {
+		if types.Identical(adding, named) {
+			return true
+		}
+	}
+
+	return false
+}
diff --git a/astTraversal/type.go b/astTraversal/type.go
index c49b177..923d073 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -141,8 +141,11 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			if t.Traverser.shouldAddComponent {
+			// A type that refers to itself is already being added as a component
+			if t.Traverser.shouldAddComponent && !t.Traverser.isAddingComponent(n) {
+				t.Traverser.addingComponents = append(t.Traverser.addingComponents, n)
 				namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
+				t.Traverser.addingComponents = t.Traverser.addingComponents[:len(t.Traverser.addingComponents)-1]
 				if err != nil {
 					return Result{}, err
 				}
-- 
2.43.0


From e1e8bd67b76f28e47de5b59a0e4275d3370a1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:35 +0000
Subject: [PATCH 29/63] fix: end the parsing of functions that call themselves

---
 inputs/gin/parseFunction.go | 19 +++++++++++++------
 inputs/gin/parseRoute.go    |  4 ++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 9ff0b8a..c8eb716 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"go/ast"
 	"go/types"
+	"slices"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -21,12 +22,13 @@ const (
 
 // parseFunction parses a function and adds it to the service.
 // It is designed to be called recursively should it be required.
-// The level parameter is used to determine the depth of recursion.
+// The callers parameter holds the bodies of the functions that lead to this one, to determine the depth of recursion.
 // And the package name and path are used to determine the package of the currently analysed function.
 // The currRoute reference is used to manipulate the current route being analysed.
 // The imports are used to determine the package of the context variable.
-func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int) error {
+func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, callers []*ast.BlockStmt) error {
 	traverser := funcTraverser.Traverser
+	level := len(callers)
 
 	traverser.SetActiveFile(activeFile)
 	traverser.SetAddComponentFunction(addComponent(s))
@@ -46,6 +48,8 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		return errors.New("failed to find context variable name")
 	}
 
+	callers = append(slices.Clone(callers), funcTraverser.Node.Body)
+
 	var err error
 	// Loop over every statement in the function
 	ast.Inspect(funcTraverser.Node.Body, func(n ast.Node) bool {
@@ -104,10 +108,13 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 
-			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
-			if err != nil {
-				traverser.Log.Error().Err(err).Msg("error parsing function")
-				return false
+			// A function that calls itself is already being parsed
+			if !slices.Contains(callers, function.Node.Body) {
+				err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), callers)
+				if err != nil {
+					traverser.Log.Error().Err(err).Msg("error parsing function")
+					return false
+				}
 			}
 
 			traverser.SetActiveFile(activeFile)
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index bc2f90e..946953a 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -120,7 +120,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 								return false
 							}
 
-							err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+							err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), nil)
 							if err != nil {
 								log.Error().Err(err).Msg("Failed to parse inline function")
 								return false
@@ -148,7 +148,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 			// And define the function name as the operation ID
 			baseRoute.OperationID = strcase.ToLowerCamel(funcName)
 
-			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), nil)
 			if err != nil {
 				log.Error().Err(err).Msg("Failed to parse function")
 				return false
-- 
2.43.0


From e8a7f40fb53173775dac79ed9cb62b5b6b641d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:53 +0000
Subject: [PATCH 30/63] fix: keep schema names apart for any packages

---
 outputs/openapi/components.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 45df690..d0bfb0d 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -55,10 +55,10 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 
 	for _, components := range packageNames {
-		// Iterate over every component and see if there is ever a case where the full package path doesn't match up.
+		// Find how much of the end of the package paths has to be kept until they all differ.
 		sameUntil := 0
 		for i := 0; i < len(components)-1; i++ {
-			for j := i + 1; j < len(components)-i; j++ {
+			for j := i + 1; j < len(components); j++ {
 				// If the packages don't match, we need to find the first point where they don't match.
 				if components[i].Package != components[j].Package {
 					// Create a slice of the package path split by "/".
@@ -70,14 +70,13 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					slices.Reverse(jComponentPackageSplit)
 
 					// Iterate over the package path slices and find the first point where they don't match.
-					for k := 0; k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit); k++ {
-						if iComponentPackageSplit[k] != jComponentPackageSplit[k] {
-							// We've found the first point where they don't match, set sameUntil to k and break out of the loop.
-							sameUntil = k
-							break
-						}
+					// One of them can also be the end of the other one.
+					k := 0
+					for k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit) && iComponentPackageSplit[k] == jComponentPackageSplit[k] {
+						k++
 					}
-					break
+
+					sameUntil = max(sameUntil, k)
 				}
 			}
 		}
@@ -96,7 +95,7 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					// e.g. github.com/ls6-events/astra and github.com/different/astra would give us sameUntil = 1.
 					// and split into "ls6-events" and "different".
 
-					splitPackage = splitPackage[len(splitPackage)-(sameUntil+1):]
+					splitPackage = splitPackage[max(0, len(splitPackage)-(sameUntil+1)):]
 
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
-- 
2.43.0


From e2eeb870a16259eda2f164545d419b96490a2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:36 +0000
Subject: [PATCH 31/63] fix: leave out references to types that have no schema

---
 outputs/openapi/components.go | 25 +++++++++++++++++++++++++
 outputs/openapi/generate.go   |  1 +
 2 files changed, 26 insertions(+)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index d0bfb0d..4f7c248 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -118,6 +118,31 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 }
 
+// removeUndescribedNames removes the names that none of the schemas of the components will have.
+// Otherwise, the references to them would lead nowhere.
+func removeUndescribedNames(service *astra.Service) {
+	described := make(map[string]bool)
+	for _, component := range service.Components {
+		for _, bindingType := range astTraversal.BindingTags {
+			_, bound := componentToSchema(service, component, bindingType)
+			if !bound {
+				continue
+			}
+
+			componentName, bound := makeComponentRefName(bindingType, component.Name, component.Package)
+			if bound {
+				described[componentName] = true
+			}
+		}
+	}
+
+	for key, componentName := range collisionSafeNames {
+		if !described[componentName] {
+			delete(collisionSafeNames, key)
+		}
+	}
+}
+
 // makeComponentRef creates a reference to the component in the OpenAPI specification.
 func makeComponentRef(bindingType astTraversal.BindingTagType, name, pkg string) (string, bool) {
 	componentName, bound := makeComponentRefName(bindingType, name, pkg)
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 5c90b15..e69c2eb 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -34,6 +34,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 		s.Log.Debug().Msg("Making collision safe struct names")
 		makeCollisionSafeNamesFromComponents(s.Components)
+		removeUndescribedNames(s)
 
 		protocol := "http"
 		if s.Config.Secure {
-- 
2.43.0


From a8f0e46a0b7c6929444a0f1d1eb974449a1b67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 32/63] fix: describe types that are named by an alias

Since Go 1.23, aliases are types of their own, any among them.
---
 astTraversal/alias.go       | 11 +++++++++++
 astTraversal/alias_go121.go | 11 +++++++++++
 astTraversal/function.go    |  3 ++-
 astTraversal/type.go        |  4 ++--
 4 files changed, 26 insertions(+), 3 deletions(-)
 create mode 100644 astTraversal/alias.go
 create mode 100644 astTraversal/alias_go121.go

diff --git a/astTraversal/alias.go b/astTraversal/alias.go
new file mode 100644
index 0000000..ec3c082
--- /dev/null
+++ b/astTraversal/alias.go
@@ -0,0 +1,11 @@
+//go:build go1.22
+
+package astTraversal
+
+import "go/types"
+
+// unalias returns the type that an alias stands for.
+// From Go 1.23, the type checker keeps aliases (any is one of them) apart from the types they stand for.
+func unalias(t types.Type) types.Type {
+	return types.Unalias(t)
+}
diff --git a/astTraversal/alias_go121.go b/astTraversal/alias_go121.go
new file mode 100644
index 0000000..cffd0d9
--- /dev/null
+++ b/astTraversal/alias_go121.go
@@ -0,0 +1,11 @@
+//go:build !go1.22
+
+package astTraversal
+
+import "go/types"
+
+// unalias returns the type that an alias stands for.
+// Before Go 1.22, the type checker doesn't know aliases.
+func unalias(t types.Type) types.Type {
+	return t
+}
diff --git a/astTraversal/function.go b/astTraversal/function.go
index 8bee5cc..5c344c2 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -57,9 +57,10 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 			continue
 		}
 
+		argType = unalias(argType)
 		if isPointer {
 			if named, ok := argType.(*types.Pointer); ok {
-				argType = named.Elem()
+				argType = unalias(named.Elem())
 			} else {
 				continue
 			}
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 923d073..b5b94f8 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -32,7 +32,7 @@ func (t *TypeTraverser) SetName(name string) *TypeTraverser {
 
 func (t *TypeTraverser) Result() (Result, error) {
 	var result Result
-	switch n := t.Node.(type) {
+	switch n := unalias(t.Node).(type) {
 	case *types.Basic:
 		// The package that declares the type couldn't be loaded
 		if n.Kind() == types.Invalid {
@@ -279,7 +279,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 }
 
 func (t *TypeTraverser) Doc() (string, error) {
-	if named, ok := t.Node.(*types.Named); ok {
+	if named, ok := unalias(t.Node).(*types.Named); ok {
 		pkg := t.Traverser.Packages.AddPackage(named.Obj().Pkg().Path())
 
 		_, err := t.Traverser.Packages.Get(pkg)
-- 
2.43.0


From 43f3627202d79ea74cbf53d91a91cc20fe528052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 33/63] fix: use the value of constants as names of parameters

---
 astTraversal/expression.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 52790b4..bbde510 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -3,6 +3,7 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
 	"strings"
@@ -60,8 +61,8 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
+		if constObj, ok := obj.(*types.Const); ok {
+			return constantValue(constObj), nil
 		}
 
 		node, err := e.File.Package.ASTAtPos(obj.Pos())
@@ -102,8 +103,8 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
+		if constObj, ok := obj.(*types.Const); ok {
+			return constantValue(constObj), nil
 		}
 
 		node, err := pkg.ASTAtPos(obj.Pos())
@@ -132,6 +133,15 @@ func (e *ExpressionTraverser) Value() (string, error) {
 	return "", errors.New("value not retrievable")
 }
 
+// constantValue returns the value of a constant, which isn't quoted if it is a string.
+func constantValue(c *types.Const) string {
+	if c.Val().Kind() == constant.String {
+		return constant.StringVal(c.Val())
+	}
+
+	return c.Val().String()
+}
+
 func (e *ExpressionTraverser) Type() (types.Type, error) {
 	switch n := e.Node.(type) {
 	case *ast.StarExpr:
-- 
2.43.0


From 7b6ec8a3461bfd4845535f1a4791054fb2155c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 34/63] fix: describe types that are made of generic ones by a
 literal

---
 astTraversal/expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index bbde510..75d0421 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -164,6 +164,8 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 		return e.File.Package.FindTypeForExpr(n)
 	case *ast.MapType:
 		return e.File.Package.FindTypeForExpr(n)
+	case *ast.IndexExpr, *ast.IndexListExpr: // an instance of a generic type
+		return e.File.Package.FindTypeForExpr(e.Node)
 	case *ast.CompositeLit:
 		return e.Traverser.Expression(n.Type).Type()
 	case *ast.BasicLit:
-- 
2.43.0


From 18a8c0c3ee52a779694d117cb235863f0c42e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 35/63] fix: describe the responses of c.Data

---
 inputs/gin/parseFunction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index c8eb716..d81b1bd 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -245,7 +245,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 							return nil, errors.New("failed to parse status code")
 						}
 
-						result, ok := params[1].(astTraversal.Result)
+						result, ok := params[2].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
 						}
-- 
2.43.0


From 3d0ed1e75875f4e3cb1ec526913712413aa0f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 36/63] fix: clean the types of headers

---
 clean.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clean.go b/clean.go
index 35a57f3..df8374d 100644
--- a/clean.go
+++ b/clean.go
@@ -29,6 +29,12 @@ func (s *Service) Clean() error {
 		for j := 0; j < len(s.Routes[i].Body); j++ {
 			s.Routes[i].Body[j].Field = s.cleanField(s.Routes[i].Body[j].Field, mainPkg)
 		}
+		for j := 0; j < len(s.Routes[i].RequestHeaders); j++ {
+			s.Routes[i].RequestHeaders[j].Field = s.cleanField(s.Routes[i].RequestHeaders[j].Field, mainPkg)
+		}
+		for j := 0; j < len(s.Routes[i].ResponseHeaders); j++ {
+			s.Routes[i].ResponseHeaders[j].Field = s.cleanField(s.Routes[i].ResponseHeaders[j].Field, mainPkg)
+		}
 	}
 
 	s.Log.Info().Msg("Cleaning up structs complete")
-- 
2.43.0


From 0a23e9dd399cc6ea07a8d7d3496a0646ada86ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 37/63] fix: carry on in the file of the handler after a helper
 couldn't be parsed

---
 inputs/gin/parseFunction.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index d81b1bd..d355b7c 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -111,6 +111,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			// A function that calls itself is already being parsed
 			if !slices.Contains(callers, function.Node.Body) {
 				err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), callers)
+				traverser.SetActiveFile(activeFile)
 				if err != nil {
 					traverser.Log.Error().Err(err).Msg("error parsing function")
 					return false
-- 
2.43.0


From e76781b60ea60b935792dd7fda14f0c4d9379836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 38/63] fix: find what is used within function literals,
 conversions and builtins

---
 inputs/gin/parseFunction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index d355b7c..4839811 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -122,7 +122,11 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		} else {
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
-			if err != nil {
+			if errors.Is(err, astTraversal.ErrInvalidNodeType) || errors.Is(err, astTraversal.ErrBuiltInFunction) {
+				// It isn't a function that is declared somewhere, but the context can still be used within it, e.g. if it's a function literal or a conversion
+				err = nil
+				return true
+			} else if err != nil {
 				return false
 			}
 
-- 
2.43.0


From 7eb157c9e8f5bedbdf826291a2fc45874b25cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 39/63] fix: tell return types of different elements apart

---
 safePushing.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/safePushing.go b/safePushing.go
index 82cd297..efd471a 100644
--- a/safePushing.go
+++ b/safePushing.go
@@ -4,21 +4,30 @@ package astra
 // It uses the field type, package and status code to determine if the return type already exists.
 func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 	for _, newReturn := range n {
-		if len(prev) == 0 {
-			prev = append(prev, newReturn)
-		} else {
-			for _, existingReturn := range prev {
-				if newReturn.Field.Type != existingReturn.Field.Type || newReturn.Field.Package != existingReturn.Field.Package || newReturn.StatusCode != existingReturn.StatusCode || newReturn.ContentType != existingReturn.ContentType {
-					prev = append(prev, newReturn)
-					break
-				}
+		var found bool
+		for _, existingReturn := range prev {
+			if newReturn.StatusCode == existingReturn.StatusCode && newReturn.ContentType == existingReturn.ContentType && sameFieldType(newReturn.Field, existingReturn.Field) {
+				found = true
+				break
 			}
 		}
+		if !found {
+			prev = append(prev, newReturn)
+		}
 	}
 
 	return prev
 }
 
+// sameFieldType checks if two fields have the same type.
+// The type of a slice, array or map includes that of its elements.
+func sameFieldType(a Field, b Field) bool {
+	return a.Type == b.Type && a.Package == b.Package &&
+		a.SliceType == b.SliceType &&
+		a.ArrayType == b.ArrayType && a.ArrayLength == b.ArrayLength &&
+		a.MapKeyType == b.MapKeyType && a.MapKeyPackage == b.MapKeyPackage && a.MapValueType == b.MapValueType
+}
+
 // AddComponent adds a component to a slice of components if it doesn't already exist.
 // It uses the field type and package to determine if the component already exists.
 func AddComponent(prev []Field, n ...Field) []Field {
-- 
2.43.0


From 913804f4f8ee65ce7a520a3add547e20e3e9192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 40/63] fix: describe every parameter of an operation

The parameters of a body replaced each other, arrays and maps among them were described as strings,
and the headers and embedded fields that are bound had no names.
---
 outputs/openapi/generate.go | 49 +++++++++++++++++++------
 outputs/openapi/schema.go   | 72 +++++++++++++++++++++++++++++++++++++
 2 files changed, 110 insertions(+), 11 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index e69c2eb..68246ec 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"path"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -65,6 +66,11 @@ func Generate(filePath string) astra.ServiceFunction {
 					continue
 				}
 
+				// The parameters of the path are known by their names already
+				if pathParam.IsBound {
+					continue
+				}
+
 				operation.Parameters = append(operation.Parameters, Parameter{
 					Name:     pathParam.Name,
 					In:       "path",
@@ -80,6 +86,20 @@ func Generate(filePath string) astra.ServiceFunction {
 					continue
 				}
 
+				// OpenAPI spec requires the use of a name, so bound parameters must be spread
+				if requestHeader.IsBound {
+					for propertyName, propertySchema := range boundProperties(s, requestHeader.Field.Package, requestHeader.Field.Type, astTraversal.HeaderBindingTag) {
+						operation.Parameters = append(operation.Parameters, Parameter{
+							Name:     propertyName,
+							In:       "header",
+							Required: requestHeader.IsRequired,
+							Schema:   propertySchema,
+						})
+					}
+
+					continue
+				}
+
 				parameter := Parameter{
 					Name:     requestHeader.Name,
 					In:       "header",
@@ -99,17 +119,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 				// OpenAPI spec requires the use of a name, so bound parameters must be spread
 				if queryParam.IsBound {
-					field, found := findComponentByPackageAndType(s.Components, queryParam.Field.Package, queryParam.Field.Type)
-					if !found {
-						continue
-					}
-
-					component, bound := componentToSchema(s, field, astTraversal.FormBindingTag)
-					if !bound {
-						continue
-					}
-
-					for propertyName, propertySchema := range component.Properties {
+					for propertyName, propertySchema := range boundProperties(s, queryParam.Field.Package, queryParam.Field.Type, astTraversal.FormBindingTag) {
 						style, explode := getQueryParamStyle(propertySchema)
 
 						parameter := Parameter{
@@ -143,6 +153,13 @@ func Generate(filePath string) astra.ServiceFunction {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", bodyParam.Name).Msg("Adding body parameter")
 				bindingType := astra.ContentTypeToBindingTag(bodyParam.ContentType)
 				schema, bound := mapFieldToSchema(bindingType, bodyParam.Field)
+				if bodyParam.IsArray || bodyParam.IsMap {
+					schema, bound = mapParamToSchema(bindingType, astra.Param{
+						Field:   bodyParam.Field,
+						IsArray: bodyParam.IsArray,
+						IsMap:   bodyParam.IsMap,
+					})
+				}
 				if !bound {
 					continue
 				}
@@ -165,6 +182,11 @@ func Generate(filePath string) astra.ServiceFunction {
 					mediaType.Schema = schema
 				}
 
+				// The parameters of a body share the schema of its content type
+				if otherMediaType, ok := operation.RequestBody.Content[bodyParam.ContentType]; ok {
+					mediaType.Schema = mergeSchemas(otherMediaType.Schema, mediaType.Schema)
+				}
+
 				operation.RequestBody.Content[bodyParam.ContentType] = mediaType
 			}
 
@@ -224,6 +246,11 @@ func Generate(filePath string) astra.ServiceFunction {
 				return operation.Parameters[i].In < operation.Parameters[j].In
 			})
 
+			// A parameter that is used more than once is still a single parameter
+			operation.Parameters = slices.CompactFunc(operation.Parameters, func(a Parameter, b Parameter) bool {
+				return a.Name == b.Name && a.In == b.In
+			})
+
 			var endpointPath Path
 			if _, ok := paths[endpoint.Path]; !ok {
 				endpointPath = Path{}
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 8417b96..2025f32 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -1,6 +1,9 @@
 package openapi
 
 import (
+	"reflect"
+	"slices"
+
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
 )
@@ -136,3 +139,72 @@ func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName st
 
 	return astra.Field{}, false
 }
+
+// boundProperties returns the properties that a bound struct is made of, with those of the structs that are embedded in it.
+func boundProperties(service *astra.Service, pkg string, typeName string, bindingType astTraversal.BindingTagType) map[string]Schema {
+	properties := make(map[string]Schema)
+	visited := make(map[string]bool)
+
+	var addProperties func(pkg string, typeName string)
+	addProperties = func(pkg string, typeName string) {
+		component, found := findComponentByPackageAndType(service.Components, pkg, typeName)
+		if !found || visited[pkg+"."+typeName] {
+			return
+		}
+		visited[pkg+"."+typeName] = true
+
+		schema, bound := componentToSchema(service, component, bindingType)
+		if !bound {
+			return
+		}
+
+		// The properties of the outer struct have priority over the embedded ones.
+		for _, ownSchema := range append([]Schema{schema}, schema.AllOf...) {
+			for name, property := range ownSchema.Properties {
+				if _, ok := properties[name]; !ok {
+					properties[name] = property
+				}
+			}
+		}
+
+		for _, fieldName := range sortedFieldNames(component.StructFields) {
+			if field := component.StructFields[fieldName]; field.IsEmbedded {
+				addProperties(field.Package, field.Type)
+			}
+		}
+	}
+	addProperties(pkg, typeName)
+
+	return properties
+}
+
+// mergeSchemas returns the schema of a value that both of the schemas describe a part of.
+func mergeSchemas(first Schema, second Schema) Schema {
+	if reflect.DeepEqual(first, second) {
+		return first
+	}
+
+	if first.Type == "object" && second.Type == "object" && first.Properties != nil && second.Properties != nil {
+		merged := Schema{
+			Type:       "object",
+			Properties: make(map[string]Schema),
+		}
+		for _, schema := range []Schema{first, second} {
+			for name, property := range schema.Properties {
+				merged.Properties[name] = property
+			}
+		}
+
+		return merged
+	}
+
+	if len(first.AllOf) > 0 {
+		return Schema{
+			AllOf: append(slices.Clone(first.AllOf), second),
+		}
+	}
+
+	return Schema{
+		AllOf: []Schema{first, second},
+	}
+}
-- 
2.43.0


From 5553c00b275ebef7d6791a206a56305df16af748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 41/63] fix: find the components that are containers of types
 of other packages

---
 astTraversal/result.go        |  3 +++
 astTraversal/type.go          |  9 +++++++++
 clean.go                      |  3 +++
 outputs/openapi/components.go | 15 ++++++++++++---
 types.go                      |  2 ++
 utils.go                      |  5 +++++
 6 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/astTraversal/result.go b/astTraversal/result.go
index 7c0b8cc..4d5c1f7 100644
--- a/astTraversal/result.go
+++ b/astTraversal/result.go
@@ -9,6 +9,9 @@ type Result struct {
 	// It's used as the package of a Slice, Array or Map Value
 	Package *PackageNode
 
+	// ElemPackage is the package of the elements of a named Slice, Array or Map, if it's another one than that of the types.Named type
+	ElemPackage *PackageNode
+
 	// Name is the name of the result if it's a types.Named type
 	Name string
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index b5b94f8..cc6680c 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -150,6 +150,15 @@ func (t *TypeTraverser) Result() (Result, error) {
 					return Result{}, err
 				}
 
+				// The package of a container is that of its elements, but a component is found by the package it's declared in.
+				switch namedUnderlyingResult.Type {
+				case "slice", "array", "map":
+					if namedUnderlyingResult.Package != pkg {
+						namedUnderlyingResult.ElemPackage = namedUnderlyingResult.Package
+						namedUnderlyingResult.Package = pkg
+					}
+				}
+
 				namedUnderlyingResult.Doc, err = t.Doc()
 				if err != nil {
 					return Result{}, err
diff --git a/clean.go b/clean.go
index df8374d..e8766ea 100644
--- a/clean.go
+++ b/clean.go
@@ -56,6 +56,9 @@ func (s *Service) cleanField(f Field, mainPkg string) Field {
 	if f.Package == mainPkg {
 		f.Package = "main"
 	}
+	if f.ElemPackage == mainPkg {
+		f.ElemPackage = "main"
+	}
 	if f.MapKeyPackage == mainPkg {
 		f.MapKeyPackage = "main"
 	}
diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 4f7c248..e329fae 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -174,6 +174,15 @@ func sortedFieldNames(fields map[string]astra.Field) []string {
 	return names
 }
 
+// elementPackage returns the package of the elements of a slice, array or map.
+func elementPackage(component astra.Field) string {
+	if component.ElemPackage != "" {
+		return component.ElemPackage
+	}
+
+	return component.Package
+}
+
 // componentToSchema converts a component to a schema.
 func componentToSchema(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (schema Schema, bound bool) {
 	if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
@@ -234,7 +243,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.SliceType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.SliceType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, elementPackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -250,7 +259,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.ArrayType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.ArrayType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, elementPackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -267,7 +276,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
 
 		if additionalProperties.Type == "" && !astra.IsAcceptedType(component.MapValueType) {
-			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, component.Package)
+			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, elementPackage(component))
 			if ok {
 				additionalProperties.Ref = componentRef
 			}
diff --git a/types.go b/types.go
index 48deddd..bff368a 100644
--- a/types.go
+++ b/types.go
@@ -74,6 +74,8 @@ type Field struct {
 
 	EnumValues []any `json:"enumValues,omitempty" yaml:"enumValues,omitempty"`
 
+	ElemPackage string `json:"elemPackage,omitempty" yaml:"elemPackage,omitempty"` // Only if it isn't the Package.
+
 	IsRequired bool `json:"isRequired,omitempty" yaml:"isRequired,omitempty"`
 	IsEmbedded bool `json:"isEmbedded,omitempty" yaml:"isEmbedded,omitempty"`
 
diff --git a/utils.go b/utils.go
index adaaa9b..b8117fb 100644
--- a/utils.go
+++ b/utils.go
@@ -44,6 +44,11 @@ func ParseResultToField(result astTraversal.Result) Field {
 		field.MapKeyPackage = result.MapKeyPackage.Path()
 	}
 
+	// If the elements are of another package, we need to get the package path for them.
+	if result.ElemPackage != nil {
+		field.ElemPackage = result.ElemPackage.Path()
+	}
+
 	// If the struct fields are populated, we need to parse them.
 	if result.StructFields != nil {
 		field.StructFields = make(map[string]Field)
-- 
2.43.0


From 9901cefa943e1d0cfee174d10e61eaaa80a2baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 42/63] fix: describe the items of arrays

---
 outputs/openapi/components.go |  6 +++---
 outputs/openapi/schema.go     | 11 ++++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index e329fae..856cdcd 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -268,9 +268,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		}
 
 		schema = Schema{
-			Type:      "array",
-			Items:     &itemSchema,
-			MaxLength: int(component.ArrayLength),
+			Type:     "array",
+			Items:    &itemSchema,
+			MaxItems: int(component.ArrayLength),
 		}
 	} else if component.Type == "map" {
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 2025f32..cf61022 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -45,7 +45,16 @@ func mapParamToSchema(bindingType astTraversal.BindingTagType, param astra.Param
 }
 
 func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
-	if !astra.IsAcceptedType(field.Type) {
+	if field.Type == "array" {
+		schema, bound := mapFieldToSchema(bindingType, astra.Field{
+			Type:      "slice",
+			SliceType: field.ArrayType,
+			Package:   field.Package,
+		})
+		schema.MaxItems = int(field.ArrayLength)
+
+		return schema, bound
+	} else if !astra.IsAcceptedType(field.Type) {
 		componentRef, bound := makeComponentRef(bindingType, field.Type, field.Package)
 		if bound {
 			return Schema{
-- 
2.43.0


From 943e7118d199c6e998b28e5a94fd62a6ba5e103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:51 +0000
Subject: [PATCH 43/63] fix: list every value of an enum

Only literals with a type of their own were listed.
Durations aren't an enum.
---
 astTraversal/type.go | 110 +++++++++++++++++++++----------------------
 substituteTypes.go   |   1 +
 2 files changed, 54 insertions(+), 57 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index cc6680c..8b5f3d6 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -2,10 +2,9 @@ package astTraversal
 
 import (
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strconv"
-	"strings"
 )
 
 type TypeTraverser struct {
@@ -67,62 +66,24 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 						// If the declaration is a const, we iterate over every spec
 						for _, spec := range genDecl.Specs {
-							// If the spec is a ValueSpec, we check if the type is the same as the named type
+							// If the spec is a ValueSpec, we iterate over every constant that it declares
+							// A constant doesn't need a type or value of its own, e.g. if it's in a list with iota
 							if valueSpec, ok := spec.(*ast.ValueSpec); ok {
-								// If the type is the same as the named type, we iterate over every value
-								if valueSpec.Type != nil {
-									// We check this by comparing the name of the type to the name of the named type
-									// It must be an Ident, otherwise it's not a named type, or it's from another package, not the one we're looking for
-									if ident, ok := valueSpec.Type.(*ast.Ident); ok {
-										if ident.Name == t.name {
-											// We iterate over every value in the value spec
-											for _, value := range valueSpec.Values {
-												// If the value is a basic literal, we add it to the enum values
-												if basicLit, ok := value.(*ast.BasicLit); ok {
-													// Switch over the basic literal's kind to determine the type of the value
-													// And format it accordingly
-													switch n.Kind() {
-													case types.String:
-														result.EnumValues = append(result.EnumValues, strings.Trim(basicLit.Value, "\""))
-													case types.Int:
-														i, err := strconv.Atoi(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Float32, types.Float64:
-														f, err := strconv.ParseFloat(basicLit.Value, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, f)
-													case types.Bool:
-														b, err := strconv.ParseBool(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, b)
-													case types.Int8, types.Int16, types.Int32, types.Int64:
-														i, err := strconv.ParseInt(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
-														i, err := strconv.ParseUint(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													}
-												}
-											}
-										}
+								for _, ident := range valueSpec.Names {
+									constantObject, ok := t.Package.Package.Types.Scope().Lookup(ident.Name).(*types.Const)
+									if !ok {
+										continue
+									}
+
+									// We check if the type is the same as the named type by comparing its name to the name of the named type
+									// It must be declared in the same package, otherwise it's not the one we're looking for
+									named, ok := unalias(constantObject.Type()).(*types.Named)
+									if !ok || named.Obj().Name() != t.name || named.Obj().Pkg() != constantObject.Pkg() {
+										continue
+									}
+
+									if value := enumValue(n.Kind(), constantObject.Val()); value != nil {
+										result.EnumValues = append(result.EnumValues, value)
 									}
 								}
 							}
@@ -304,3 +265,38 @@ func (t *TypeTraverser) Doc() (string, error) {
 
 	return "", nil
 }
+
+// enumValue returns the value of a constant of an enum in the format of the kind of its type.
+// It is nil if the enum can't have such values.
+func enumValue(kind types.BasicKind, value constant.Value) any {
+	if value.Kind() == constant.Unknown {
+		return nil
+	}
+
+	switch kind {
+	case types.String:
+		return constant.StringVal(value)
+	case types.Bool:
+		return constant.BoolVal(value)
+	case types.Float32, types.Float64:
+		f, _ := constant.Float64Val(constant.ToFloat(value))
+		return f
+	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
+		i, ok := constant.Int64Val(constant.ToInt(value))
+		if !ok {
+			return nil
+		}
+		if kind == types.Int {
+			return int(i)
+		}
+		return i
+	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
+		i, ok := constant.Uint64Val(constant.ToInt(value))
+		if !ok {
+			return nil
+		}
+		return i
+	}
+
+	return nil
+}
diff --git a/substituteTypes.go b/substituteTypes.go
index 7fb7219..e54711d 100644
--- a/substituteTypes.go
+++ b/substituteTypes.go
@@ -23,5 +23,6 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 		component.StructFields = nil
 		component.SliceType = ""
 		component.MapValueType = ""
+		component.EnumValues = nil
 	}
 }
-- 
2.43.0


From 857c555140c3552626eb6bc9d6e420363260b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:05 +0000
Subject: [PATCH 44/63] fix: don't write .astra/.gitignore again if it can't be
 looked for

An interrupted run left its temporary file, and later runs didn't replace it as the file was there.
---
 dir.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index df34eae..17a0ed7 100644
--- a/dir.go
+++ b/dir.go
@@ -91,7 +91,11 @@ func moveTree(sourcePath, destinationPath string) error {
 // setupGitIgnore creates the .gitignore file, by default it will ignore all files in the directory.
 func (s *Service) setupGitIgnore() error {
 	gitIgnorePath := path.Join(s.getAstraDirPath(), ".gitignore")
-	if info, err := os.Stat(gitIgnorePath); err == nil && info.Size() > 0 {
+	info, err := os.Stat(gitIgnorePath)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	if err == nil && info.Size() > 0 {
 		return nil
 	}
 
-- 
2.43.0


From 861249a06910971f49c4cf60b29f571f807d27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:24 +0000
Subject: [PATCH 45/63] fix: keep the schemas of different bindings apart in
 the ones that refer to them

---
 outputs/openapi/components.go | 79 +++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 856cdcd..55c9c96 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -40,6 +40,8 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	// The names of an earlier run aren't valid anymore.
 	clear(collisionSafeNames)
 
+	differing := findDifferingComponents(components)
+
 	// Group the components by package name.
 	packageNames := make(map[string][]astra.Field)
 	for _, component := range components {
@@ -84,6 +86,10 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 		// Iterate over every component and create a collision safe name.
 		for _, component := range components {
 			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+			if !uniqueBindings && differing[collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)] {
+				// The schemas that it refers to are those of the binding, so it needs one for every binding as well.
+				bindingTags, uniqueBindings = componentBindings(component), true
+			}
 			for _, bindingType := range bindingTags {
 				// If sameUntil is greater than 0, we need to remove the package path up to the point where they first don't match.
 				if sameUntil > 0 {
@@ -118,6 +124,79 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 }
 
+// componentBindings returns the bindings that a component has a schema for.
+func componentBindings(component astra.Field) []astTraversal.BindingTagType {
+	return slices.DeleteFunc(slices.Clone(astTraversal.BindingTags), func(bindingType astTraversal.BindingTagType) bool {
+		for _, field := range component.StructFields {
+			_, hasBinding := field.StructFieldBindingTags[bindingType]
+			_, hasNoBinding := field.StructFieldBindingTags[astTraversal.NoBindingTag]
+			if !field.IsEmbedded && !hasBinding && !hasNoBinding {
+				return true
+			}
+		}
+
+		return false
+	})
+}
+
+// findDifferingComponents finds the components whose schema isn't the same for all of the bindings that they have one for.
+// That's because of the names of their own fields or because of the components that they refer to.
+func findDifferingComponents(components []astra.Field) map[string]bool {
+	differing := make(map[string]bool)
+	bindings := make(map[string][]astTraversal.BindingTagType)
+	references := make(map[string][]string)
+	for _, component := range components {
+		key := collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)
+		bindings[key] = componentBindings(component)
+
+		// The fields of the structs without a name are a part of the component.
+		for fields := []astra.Field{component}; len(fields) > 0; fields = fields[1:] {
+			field := fields[0]
+			if _, uniqueBindings := astra.ExtractBindingTags(field.StructFields); uniqueBindings {
+				differing[key] = true
+			}
+			for _, structField := range field.StructFields {
+				fields = append(fields, structField)
+			}
+
+			for _, typeName := range []string{field.Type, field.SliceType, field.ArrayType, field.MapValueType} {
+				references[key] = append(references[key], collisionSafeKey(astTraversal.NoBindingTag, typeName, elementPackage(field)))
+			}
+		}
+	}
+
+	for changed := true; changed; {
+		changed = false
+		for key, referenceKeys := range references {
+			if differing[key] || len(bindings[key]) < 2 {
+				continue
+			}
+
+			for _, referenceKey := range referenceKeys {
+				referenceBindings, isComponent := bindings[referenceKey]
+				if !isComponent {
+					continue
+				}
+
+				described := 0
+				for _, bindingType := range bindings[key] {
+					if slices.Contains(referenceBindings, bindingType) {
+						described++
+					}
+				}
+
+				if described > 0 && (differing[referenceKey] || described < len(bindings[key])) {
+					differing[key] = true
+					changed = true
+					break
+				}
+			}
+		}
+	}
+
+	return differing
+}
+
 // removeUndescribedNames removes the names that none of the schemas of the components will have.
 // Otherwise, the references to them would lead nowhere.
 func removeUndescribedNames(service *astra.Service) {
-- 
2.43.0


From 27f81310c585e1d7bdcf8ef0d445cac369a647d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:22 +0000
Subject: [PATCH 46/63] fix: find an import with a name of its own only by that
 name

---
 astTraversal/fileNode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/astTraversal/fileNode.go b/astTraversal/fileNode.go
index c9cc911..ba2d973 100644
--- a/astTraversal/fileNode.go
+++ b/astTraversal/fileNode.go
@@ -21,7 +21,13 @@ func (f *FileNode) IsImportedPackage(ident string) bool {
 
 func (f *FileNode) FindImport(ident string) (FileImport, bool) {
 	for _, im := range f.Imports {
-		if im.Name == ident || im.Package.Name == ident {
+		// An import with a name of its own is only known by that name
+		name := im.Name
+		if name == "" {
+			name = im.Package.Name
+		}
+
+		if name == ident {
 			return im, true
 		}
 	}
-- 
2.43.0


From a5b985821a37e3c9452e912104d245dc364fd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:23 +0000
Subject: [PATCH 47/63] fix: find the package of a helper by what its name
 refers to

---
 astTraversal/traverser.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index e5bf638..a859777 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -116,13 +116,13 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 			return nil, errors.New("unsupported type")
 		}
 
-		if fileImport, ok := t.ActiveFile().FindImport(nodeIdent.Name); ok {
-			_, err := t.Packages.Get(fileImport.Package)
+		if importedPackage, ok := t.findImportedPackage(nodeIdent); ok {
+			_, err := t.Packages.Get(importedPackage)
 			if err != nil {
 				return nil, err
 			}
 
-			newNode, file, err := fileImport.Package.FindASTForType(nodeType.Sel.Name)
+			newNode, file, err := importedPackage.FindASTForType(nodeType.Sel.Name)
 			if err != nil {
 				return nil, err
 			}
@@ -137,6 +137,22 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 	return nil, errors.New("unsupported type")
 }
 
+// findImportedPackage finds the package that an identifier of the active file refers to.
+// The name of a package doesn't have to be the last element of its path, so the type checker's result is preferred.
+func (t *BaseTraverser) findImportedPackage(ident *ast.Ident) (*PackageNode, bool) {
+	if uses, err := t.ActiveFile().Package.FindUsesForIdent(ident); err == nil {
+		pkgName, ok := uses.(*types.PkgName)
+		if !ok {
+			return nil, false
+		}
+
+		return t.Packages.FindOrAdd(pkgName.Imported().Path()), true
+	}
+
+	fileImport, ok := t.ActiveFile().FindImport(ident.Name)
+	return fileImport.Package, ok
+}
+
 func (t *BaseTraverser) SetAddComponentFunction(addComponent func(result Result) error) *BaseTraverser {
 	t.addComponent = addComponent
 	t.shouldAddComponent = true
-- 
2.43.0


From e65492523fe88c537554864564b93faea4813ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:26 +0000
Subject: [PATCH 48/63] fix: unquote string literals the way that Go does

---
 astTraversal/expression.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 75d0421..3d88cef 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -6,7 +6,7 @@ import (
 	"go/constant"
 	"go/token"
 	"go/types"
-	"strings"
+	"strconv"
 )
 
 type ExpressionTraverser struct {
@@ -51,7 +51,12 @@ func (e *ExpressionTraverser) Value() (string, error) {
 	case *ast.BasicLit:
 		value := n.Value
 		if n.Kind == token.STRING {
-			value = strings.Trim(value, "\"")
+			unquoted, err := strconv.Unquote(value)
+			if err != nil {
+				return "", err
+			}
+
+			value = unquoted
 		}
 
 		return value, nil
-- 
2.43.0


From 8abe03e828f50113303f2e45a29079f8a04b564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:26 +0000
Subject: [PATCH 49/63] fix: keep path parameters apart whose names start alike
 in Azure routes

---
 outputs/azureFunctions/convertRoute.go | 29 ++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/outputs/azureFunctions/convertRoute.go b/outputs/azureFunctions/convertRoute.go
index c34d171..fb7d474 100644
--- a/outputs/azureFunctions/convertRoute.go
+++ b/outputs/azureFunctions/convertRoute.go
@@ -1,9 +1,8 @@
 package azureFunctions
 
 import (
-	"strings"
-
 	"github.com/ls6-events/astra"
+	"github.com/ls6-events/astra/utils"
 )
 
 // Adapted from https://learn.microsoft.com/en-us/aspnet/web-api/overview/web-api-routing-and-actions/attribute-routing-in-web-api-2#route-constraints
@@ -26,21 +25,25 @@ var acceptedTypeMap = map[string]string{
 }
 
 func convertRoute(route astra.Route) string {
-	routeString := route.Path
+	// Every parameter is replaced where it is in the path, its name can be the start of another one or of a type
+	return utils.MapPathParams(route.Path, func(param string) string {
+		for _, pathParam := range route.PathParams {
+			if pathParam.Name != param[1:] || pathParam.IsRequired != (param[0] == ':') {
+				continue
+			}
 
-	for _, pathParams := range route.PathParams {
-		if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
-			if azureType == "" {
-				return ""
+			azureType, ok := acceptedTypeMap[pathParam.Field.Type]
+			if !ok {
+				break
 			}
 
-			if pathParams.IsRequired {
-				routeString = strings.Replace(routeString, ":"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"}", 1)
-			} else {
-				routeString = strings.Replace(routeString, "*"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"?}", 1)
+			if pathParam.IsRequired {
+				return "{" + pathParam.Name + ":" + azureType + "}"
 			}
+
+			return "{" + pathParam.Name + ":" + azureType + "?}"
 		}
-	}
 
-	return routeString
+		return param
+	})
 }
-- 
2.43.0


From a81f4d976212a00bcae793a054ee2292f5012b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 50/63] fix: parse function literals that are set inside a
 method

---
 inputs/gin/parseRoute.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 946953a..69b9663 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -92,7 +92,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 
 		funcDecl, ok := n.(*ast.FuncDecl)
 
-		if ok && funcDecl.Name.Name == funcName {
+		if ok && isHandlerDeclaration(funcDecl, handler.HandlerParts) {
 			log.Debug().Str("funcName", funcName).Msg("Found handler function")
 
 			startPos := traverser.ActiveFile().Package.Package.Fset.Position(funcDecl.Pos())
@@ -170,3 +170,26 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 
 	return nil
 }
+
+// isHandlerDeclaration returns whether the function is the one that the name of the handler starts with.
+// Function literals are named after the function that they're set in, which can be a method of a value or of a pointer,
+// e.g. "func1" of "getUser.func1", "server.getUser.func1" or "(*server).getUser.func1".
+func isHandlerDeclaration(funcDecl *ast.FuncDecl, handlerParts []string) bool {
+	if funcDecl.Recv == nil {
+		return funcDecl.Name.Name == handlerParts[0]
+	}
+
+	if len(handlerParts) < 3 || len(funcDecl.Recv.List) != 1 || funcDecl.Name.Name != handlerParts[1] {
+		return false
+	}
+
+	switch recv := funcDecl.Recv.List[0].Type.(type) {
+	case *ast.StarExpr:
+		ident, ok := recv.X.(*ast.Ident)
+		return ok && handlerParts[0] == "(*"+ident.Name+")"
+	case *ast.Ident:
+		return handlerParts[0] == recv.Name
+	}
+
+	return false
+}
-- 
2.43.0


From c7c4c3a524ab92cd60da284f1731568e85905964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:28 +0000
Subject: [PATCH 51/63] fix: find packages whose path ends with an element that
 has a dot

---
 utils/splitHandlerPath.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils/splitHandlerPath.go b/utils/splitHandlerPath.go
index 04f8a75..1cace82 100644
--- a/utils/splitHandlerPath.go
+++ b/utils/splitHandlerPath.go
@@ -1,6 +1,9 @@
 package utils
 
-import "strings"
+import (
+	"net/url"
+	"strings"
+)
 
 type HandlerPath struct {
 	PathParts    []string
@@ -18,6 +21,11 @@ func SplitHandlerPath(handlerPath string) HandlerPath {
 	pathParts = pathParts[:len(pathParts)-1]
 	pathParts = append(pathParts, handlerParts[0])
 
+	// The dots of the last part of the package path are escaped in the name of a function
+	if last, err := url.PathUnescape(handlerParts[0]); err == nil {
+		pathParts[len(pathParts)-1] = last
+	}
+
 	// Remove the first handler part from the handler parts
 	handlerParts = handlerParts[1:]
 
-- 
2.43.0


From 160f871b382be98f9a533d517f38b737ab8fff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:30 +0000
Subject: [PATCH 52/63] fix: describe constants without a type by their default
 type

---
 astTraversal/type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 8b5f3d6..f865ae9 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -38,6 +38,11 @@ func (t *TypeTraverser) Result() (Result, error) {
 			return Result{}, t.Traverser.Packages.failLoad(ErrUnresolvedType)
 		}
 
+		// A constant without a type has the default type of its kind when it's used
+		if basic, ok := types.Default(n).(*types.Basic); ok {
+			n = basic
+		}
+
 		result = Result{
 			Type:    n.Name(),
 			Package: t.Package,
-- 
2.43.0


From 65cd42ea794441c821c00571e6e193dfef6dd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:32 +0000
Subject: [PATCH 53/63] fix: don't take the value of a field from a declaration
 of the same name

---
 astTraversal/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 3d88cef..c2e63d7 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -97,6 +97,11 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
+		// The value of a field isn't known, and a package level declaration can have the same name
+		if field, ok := obj.(*types.Var); ok && field.IsField() {
+			return "", errors.New("value not retrievable")
+		}
+
 		pkg := e.Traverser.Packages.FindOrAdd(obj.Pkg().Path())
 		_, err = e.Traverser.Packages.Get(pkg)
 		if err != nil {
-- 
2.43.0


From 81fec7debedce7c528260ddc6f55150517800640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:39 +0000
Subject: [PATCH 54/63] fix: don't panic on arguments without a name and on
 pointers to predeclared types

---
 astTraversal/function.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index 5c344c2..0f5345b 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -52,6 +52,11 @@ func (f *FunctionTraverser) Results() []*ast.Field {
 
 func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath string, isPointer bool) string {
 	for _, arg := range f.Arguments() {
+		// An argument without a name can't be used
+		if len(arg.Names) == 0 {
+			continue
+		}
+
 		argType, err := f.File.Package.FindTypeForExpr(arg.Type)
 		if err != nil {
 			continue
@@ -66,7 +71,7 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 			}
 		}
 
-		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
+		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
 			return arg.Names[0].Name
 		} else if basic, ok := argType.(*types.Basic); ok && basic.Name() == typeName {
 			return arg.Names[0].Name
-- 
2.43.0


From 4ebbbaa6f01a703854bb8641f2c50845eac8826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:39 +0000
Subject: [PATCH 55/63] fix: don't panic on the value of a variable that is
 declared without one

---
 astTraversal/declaration.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/astTraversal/declaration.go b/astTraversal/declaration.go
index 17aefa3..dae9031 100644
--- a/astTraversal/declaration.go
+++ b/astTraversal/declaration.go
@@ -31,6 +31,11 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		// The variable doesn't have a value of its own, e.g. if it's set later
+		if index >= len(n.Values) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Values[index], nil
 	case *ast.AssignStmt:
 		var index int
@@ -41,6 +46,10 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		if index >= len(n.Rhs) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Rhs[index], nil
 	default:
 		return nil, ErrInvalidNodeType
-- 
2.43.0


From b8d79242f1eab6603ad745e00bb7dacf68ddc279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:28 +0000
Subject: [PATCH 56/63] fix: describe types that have a field which can't be
 described

---
 astTraversal/type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index f865ae9..75f993e 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -1,6 +1,7 @@
 package astTraversal
 
 import (
+	"errors"
 	"go/ast"
 	"go/constant"
 	"go/token"
@@ -201,7 +202,10 @@ func (t *TypeTraverser) Result() (Result, error) {
 			}
 
 			structFieldResult, err := t.Traverser.Type(f.Type(), t.Package).Result()
-			if err != nil {
+			if errors.Is(err, ErrInvalidNodeType) {
+				// The field is of a type that no format has values for (i.e. a function), the other ones still are described
+				continue
+			} else if err != nil {
 				return Result{}, err
 			}
 
-- 
2.43.0


From e107f6ee3e33c62a36b587043038df51e46c6b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:29 +0000
Subject: [PATCH 57/63] fix: describe fields whose tag gives them the name -

---
 astTraversal/tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astTraversal/tags.go b/astTraversal/tags.go
index 4be5a0f..751517d 100644
--- a/astTraversal/tags.go
+++ b/astTraversal/tags.go
@@ -56,7 +56,7 @@ func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap)
 		tagItems := strings.Split(tagValue, ",")
 		if tagItems[0] == "" {
 			newBindingTag.Name = field
-		} else if tagItems[0] != "-" {
+		} else if tagValue != "-" { // A tag of "-," gives the name "-"
 			newBindingTag.Name = tagItems[0]
 		} else {
 			newBindingTag.NotShown = true
-- 
2.43.0


From 144e6ec5f4e3f3d47168e0a4830a9b061cc855d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:30 +0000
Subject: [PATCH 58/63] fix: find the declaration of a name that is declared
 together with others

---
 astTraversal/packageNode.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 728f8d1..071e24f 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"slices"
 
 	"golang.org/x/tools/go/packages"
 )
@@ -174,6 +175,28 @@ func (p *PackageNode) FindUsesForIdent(ident *ast.Ident) (types.Object, error) {
 	return uses, nil
 }
 
+// declaresAt returns whether the node is the declaration of the name at a position.
+// That is not where the declaration starts if it declares more than one name.
+func declaresAt(node ast.Node, pos token.Pos) bool {
+	isAtPos := func(name *ast.Ident) bool {
+		return name.Pos() == pos
+	}
+
+	switch n := node.(type) {
+	case *ast.Field:
+		return slices.ContainsFunc(n.Names, isAtPos)
+	case *ast.ValueSpec:
+		return slices.ContainsFunc(n.Names, isAtPos)
+	case *ast.AssignStmt:
+		return n.Tok == token.DEFINE && slices.ContainsFunc(n.Lhs, func(expr ast.Expr) bool {
+			name, ok := expr.(*ast.Ident)
+			return ok && isAtPos(name)
+		})
+	}
+
+	return false
+}
+
 func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 	if p.Package == nil {
 		return nil, fmt.Errorf("package %s not populated", p.Path())
@@ -189,7 +212,11 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 					return true
 				}
 
-				if n.Pos() == pos {
+				if result != nil {
+					return false
+				}
+
+				if n.Pos() == pos || declaresAt(n, pos) {
 					result = n
 					return false
 				}
-- 
2.43.0


From f17d4b7384baef672da3cec2dc1ef14301c5300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:17 +0000
Subject: [PATCH 59/63] fix: find the module of the main package wherever it is
 and however go.mod is written

---
 mainPackage.go | 65 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/mainPackage.go b/mainPackage.go
index 8dea5f6..a80c3d8 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -3,6 +3,8 @@ package astra
 import (
 	"os"
 	"path"
+	"path/filepath"
+	"strconv"
 	"strings"
 )
 
@@ -15,8 +17,6 @@ const mainPackageReplacementPath = astraDir + "/" + mainPackageReplacement
 
 // setupTempMainPackage copies the main package to a temporary directory and replaces the package name with a different name.
 func (s *Service) setupTempMainPackage() error {
-	var pkgName string
-
 	// The directory doesn't exist yet if the service was loaded from a cache elsewhere.
 	err := s.setupAstraDir()
 	if err != nil {
@@ -55,17 +55,14 @@ func (s *Service) setupTempMainPackage() error {
 			if err != nil {
 				return err
 			}
-		} else if strings.HasSuffix(file.Name(), ".mod") {
-			fileName := path.Join(s.WorkDir, file.Name())
-			fileData, err := os.ReadFile(fileName)
-			if err != nil {
-				return err
-			}
-
-			pkgName = strings.Replace(strings.Split(string(fileData), "\n")[0], "module ", "", 1)
 		}
 	}
 
+	pkgName, err := s.mainPackagePath()
+	if err != nil {
+		return err
+	}
+
 	newMainPkg := path.Join(pkgName, mainPackageReplacementPath)
 
 	s.tempMainPackageName = newMainPkg
@@ -73,6 +70,54 @@ func (s *Service) setupTempMainPackage() error {
 	return nil
 }
 
+// mainPackagePath returns the import path of the package in the working directory.
+// Its module can be in the working directory or in any directory above it.
+func (s *Service) mainPackagePath() (string, error) {
+	dir, err := filepath.Abs(s.WorkDir)
+	if err != nil {
+		return "", err
+	}
+
+	var pathInModule string
+	for {
+		goModPath := filepath.Join(dir, "go.mod")
+		if info, err := os.Stat(goModPath); err == nil && !info.IsDir() {
+			goMod, err := os.ReadFile(goModPath)
+			if err != nil {
+				return "", err
+			}
+
+			return path.Join(modulePath(string(goMod)), pathInModule), nil
+		}
+
+		parent := filepath.Dir(dir)
+		if parent == dir {
+			return "", nil
+		}
+
+		pathInModule = path.Join(filepath.Base(dir), pathInModule)
+		dir = parent
+	}
+}
+
+// modulePath returns the path of the module that a go.mod file is for.
+func modulePath(goMod string) string {
+	for _, line := range strings.Split(goMod, "\n") {
+		line, _, _ = strings.Cut(line, "//")
+
+		fields := strings.Fields(line)
+		if len(fields) == 2 && fields[0] == "module" {
+			if unquoted, err := strconv.Unquote(fields[1]); err == nil {
+				return unquoted
+			}
+
+			return fields[1]
+		}
+	}
+
+	return ""
+}
+
 // cleanupTempMainPackage removes the temporary main package.
 func (s *Service) cleanupTempMainPackage() error {
 	s.tempMainPackageName = "" // It has to be copied again, should it be required again.
-- 
2.43.0


From f556f9451934810bd7fba11ef3c47cfea834b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:19 +0000
Subject: [PATCH 60/63] fix: don't copy what isn't a source file of the main
 package

---
 mainPackage.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index a80c3d8..5dc4591 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -41,7 +41,7 @@ func (s *Service) setupTempMainPackage() error {
 	}
 
 	for _, file := range files {
-		if strings.HasSuffix(file.Name(), ".go") {
+		if isSourceFile(file) {
 			fileName := path.Join(s.WorkDir, file.Name())
 			fileData, err := os.ReadFile(fileName)
 			if err != nil {
@@ -70,6 +70,12 @@ func (s *Service) setupTempMainPackage() error {
 	return nil
 }
 
+// isSourceFile returns whether an entry of the working directory can be a part of the main package.
+// These are the same ones as for the go command.
+func isSourceFile(file os.DirEntry) bool {
+	return strings.HasSuffix(file.Name(), ".go") && !file.IsDir() && !strings.HasPrefix(file.Name(), ".") && !strings.HasPrefix(file.Name(), "_")
+}
+
 // mainPackagePath returns the import path of the package in the working directory.
 // Its module can be in the working directory or in any directory above it.
 func (s *Service) mainPackagePath() (string, error) {
-- 
2.43.0


From 6b1f8442d78d773c594b1c25cd34c68d7382af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:20 +0000
Subject: [PATCH 61/63] fix: only rename the main package in the package
 clauses of its files

---
 mainPackage.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 5dc4591..dfbb462 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -1,6 +1,8 @@
 package astra
 
 import (
+	"go/parser"
+	"go/token"
 	"os"
 	"path"
 	"path/filepath"
@@ -48,7 +50,7 @@ func (s *Service) setupTempMainPackage() error {
 				return err
 			}
 
-			fileData = []byte(strings.ReplaceAll(string(fileData), "package main", "package "+mainPackageReplacement))
+			fileData = adaptMainPackage(fileData)
 
 			newFilePath := path.Join(newMainPkgPath, file.Name())
 			err = os.WriteFile(newFilePath, fileData, 0644)
@@ -76,6 +78,21 @@ func isSourceFile(file os.DirEntry) bool {
 	return strings.HasSuffix(file.Name(), ".go") && !file.IsDir() && !strings.HasPrefix(file.Name(), ".") && !strings.HasPrefix(file.Name(), "_")
 }
 
+// adaptMainPackage replaces the name of the package in a file of the main package.
+func adaptMainPackage(fileData []byte) []byte {
+	fset := token.NewFileSet()
+	file, _ := parser.ParseFile(fset, "", fileData, parser.PackageClauseOnly)
+	if file == nil || (file.Name.Name != "main" && file.Name.Name != "main_test") {
+		return fileData // Loading the package reports what is wrong with the file, if anything is.
+	}
+
+	// The text can be anywhere else in the file too, i.e. in a comment.
+	start := fset.File(file.Name.Pos()).Offset(file.Name.Pos())
+	end := start + len("main")
+
+	return []byte(string(fileData[:start]) + mainPackageReplacement + string(fileData[end:]))
+}
+
 // mainPackagePath returns the import path of the package in the working directory.
 // Its module can be in the working directory or in any directory above it.
 func (s *Service) mainPackagePath() (string, error) {
-- 
2.43.0


From 71f235bb386b8cbf49a29997e57938e4f4cb020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:22 +0000
Subject: [PATCH 62/63] fix: describe programs whose main package embeds files

---
 mainPackage.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index dfbb462..f21d800 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -79,13 +80,24 @@ func isSourceFile(file os.DirEntry) bool {
 }
 
 // adaptMainPackage replaces the name of the package in a file of the main package.
+// It also turns off the directives that embed files, as only the source files are copied.
 func adaptMainPackage(fileData []byte) []byte {
 	fset := token.NewFileSet()
-	file, _ := parser.ParseFile(fset, "", fileData, parser.PackageClauseOnly)
+	file, _ := parser.ParseFile(fset, "", fileData, parser.ParseComments|parser.SkipObjectResolution)
 	if file == nil || (file.Name.Name != "main" && file.Name.Name != "main_test") {
 		return fileData // Loading the package reports what is wrong with the file, if anything is.
 	}
 
+	fileData = slices.Clone(fileData)
+	for _, group := range file.Comments {
+		for _, comment := range group.List {
+			if strings.HasPrefix(comment.Text, "//go:embed") {
+				colon := fset.File(comment.Pos()).Offset(comment.Pos()) + len("//go")
+				fileData[colon] = ' '
+			}
+		}
+	}
+
 	// The text can be anywhere else in the file too, i.e. in a comment.
 	start := fset.File(file.Name.Pos()).Offset(file.Name.Pos())
 	end := start + len("main")
-- 
2.43.0


From 379060a783172cdb1e89c90162587e9a56a14070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:13 +0000
Subject: [PATCH 63/63] fix: describe handlers that are methods

---
 inputs/gin/createRoute.go | 12 ++++---
 inputs/gin/parseRoute.go  | 68 ++++++++++++++++++++++++++++++++-------
 2 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/inputs/gin/createRoute.go b/inputs/gin/createRoute.go
index 4e09d1d..defb3b5 100644
--- a/inputs/gin/createRoute.go
+++ b/inputs/gin/createRoute.go
@@ -21,10 +21,14 @@ func createRoute(s *astra.Service, file string, line int, info gin.RouteInfo) er
 		return err
 	}
 
-	relativePath, err := filepath.Rel(cwd, file)
-	if err != nil {
-		log.Error().Err(err).Msg("Failed to get relative path")
-		return err
+	relativePath := file
+	// The function of a method value isn't in any file, see isMethodValue
+	if filepath.IsAbs(file) {
+		relativePath, err = filepath.Rel(cwd, file)
+		if err != nil {
+			log.Error().Err(err).Msg("Failed to get relative path")
+			return err
+		}
 	}
 
 	baseRoute := astra.Route{
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 69b9663..d35ab4d 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"path"
+	"strings"
 
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
@@ -55,11 +56,24 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
-	for _, file := range pkgNode.Files {
-		if path.Base(file.FileName) == path.Base(baseRoute.File) {
-			log.Debug().Str("fileName", file.FileName).Msg("Found file")
-			traverser.SetActiveFile(file)
-			break
+	var method *ast.FuncDecl
+	if isMethodValue(handler.HandlerParts) {
+		funcName = strings.TrimSuffix(handler.HandlerParts[1], methodValueSuffix)
+
+		for _, file := range pkgNode.Files {
+			if method = findMethod(file.AST, handler.HandlerParts[0], funcName); method != nil {
+				log.Debug().Str("fileName", file.FileName).Msg("Found method")
+				traverser.SetActiveFile(file)
+				break
+			}
+		}
+	} else {
+		for _, file := range pkgNode.Files {
+			if path.Base(file.FileName) == path.Base(baseRoute.File) {
+				log.Debug().Str("fileName", file.FileName).Msg("Found file")
+				traverser.SetActiveFile(file)
+				break
+			}
 		}
 	}
 
@@ -92,12 +106,12 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 
 		funcDecl, ok := n.(*ast.FuncDecl)
 
-		if ok && isHandlerDeclaration(funcDecl, handler.HandlerParts) {
+		if ok && (funcDecl == method || method == nil && isHandlerDeclaration(funcDecl, handler.HandlerParts)) {
 			log.Debug().Str("funcName", funcName).Msg("Found handler function")
 
 			startPos := traverser.ActiveFile().Package.Package.Fset.Position(funcDecl.Pos())
 
-			if baseRoute.LineNo != startPos.Line {
+			if method == nil && baseRoute.LineNo != startPos.Line {
 				// This means that the function is set inline in the route definition
 				log.Debug().Str("funcName", funcName).Msg("Function is inline")
 
@@ -183,13 +197,45 @@ func isHandlerDeclaration(funcDecl *ast.FuncDecl, handlerParts []string) bool {
 		return false
 	}
 
+	return receiverName(funcDecl) == handlerParts[0]
+}
+
+// methodValueSuffix is the end of the name of the function of a method value, e.g. of "(*server).getUser-fm".
+const methodValueSuffix = "-fm"
+
+// isMethodValue returns whether the name of the handler is the one of a method value.
+// The function of it is generated by the compiler, its file and line aren't those of the method.
+func isMethodValue(handlerParts []string) bool {
+	return len(handlerParts) == 2 && strings.HasSuffix(handlerParts[1], methodValueSuffix)
+}
+
+// findMethod finds the declaration of the method of a receiver.
+func findMethod(file *ast.File, receiver, name string) *ast.FuncDecl {
+	for _, decl := range file.Decls {
+		funcDecl, ok := decl.(*ast.FuncDecl)
+		if !ok || funcDecl.Recv == nil || len(funcDecl.Recv.List) != 1 || funcDecl.Name.Name != name {
+			continue
+		}
+
+		// The method of a value can also be called with a pointer
+		if declared := receiverName(funcDecl); declared == receiver || "(*"+declared+")" == receiver {
+			return funcDecl
+		}
+	}
+
+	return nil
+}
+
+// receiverName returns the receiver of a method as it is written in the names of functions.
+func receiverName(funcDecl *ast.FuncDecl) string {
 	switch recv := funcDecl.Recv.List[0].Type.(type) {
 	case *ast.StarExpr:
-		ident, ok := recv.X.(*ast.Ident)
-		return ok && handlerParts[0] == "(*"+ident.Name+")"
+		if ident, ok := recv.X.(*ast.Ident); ok {
+			return "(*" + ident.Name + ")"
+		}
 	case *ast.Ident:
-		return handlerParts[0] == recv.Name
+		return recv.Name
 	}
 
-	return false
+	return ""
 }
-- 
2.43.0

