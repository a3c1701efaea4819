From 4c1d628b5a0da344f665a3d44eded14d829de6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 01/50] fix: download packages atomically

A download that failed or was killed half way left a truncated file under
the package's final name in the cache, where every later run took it for a
complete download.
---
 cran/download-package.go          | 15 +++++---
 internal/atomicfile/atomicfile.go | 64 +++++++++++++++++++++++++++++++
 2 files changed, 73 insertions(+), 6 deletions(-)
 create mode 100644 internal/atomicfile/atomicfile.go

diff --git a/cran/download-package.go b/cran/download-package.go
index 538efbc..acfda61 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -13,6 +13,7 @@ import (
 	"time"
 
 	"github.com/dpastoor/goutils"
+	"github.com/metrumresearchgroup/pkgr/internal/atomicfile"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 )
@@ -232,17 +233,19 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		defer from.Close()
 	}
 
-	file, err := fs.Create(dest)
+	// dest must never hold a partial download: its existence is what marks the
+	// package as downloaded
+	var size int64
+	err = atomicfile.Write(fs, dest, 0666, func(file io.Writer) error {
+		var err error
+		size, err = io.Copy(file, from)
+		return err
+	})
 	if err != nil {
 		log.WithFields(log.Fields{
 			"package": d.Package,
 			"err":     err,
 		}).Warn("error downloading package, no tarball created")
-		return Download{}, err
-	}
-	defer file.Close()
-	size, err := io.Copy(file, from)
-	if err != nil {
 		return Download{Metadata: d}, err
 	}
 
diff --git a/internal/atomicfile/atomicfile.go b/internal/atomicfile/atomicfile.go
new file mode 100644
index 0000000..cefcb11
--- /dev/null
+++ b/internal/atomicfile/atomicfile.go
@@ -0,0 +1,64 @@
+// Package atomicfile replaces files in one step: whatever happens, a path
+// written through it holds either what it held before or all of the new
+// content, never a part of it.
+package atomicfile
+
+import (
+	"fmt"
+	"io"
+	"os"
+	"path/filepath"
+
+	"github.com/spf13/afero"
+)
+
+// Write replaces path with what write produces. The content goes to a
+// temporary file in the same directory, which takes the place of path once it
+// is complete and on disk. An existing file's mode is kept; otherwise the file
+// gets perm (before umask).
+func Write(fs afero.Fs, path string, perm os.FileMode, write func(io.Writer) error) error {
+	old, err := fs.Stat(path)
+	if err == nil {
+		perm = old.Mode().Perm()
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+	existed := err == nil
+
+	tmp, err := create(fs, path, perm)
+	if err != nil {
+		return err
+	}
+	err = write(tmp)
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if cerr := tmp.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil && existed {
+		// not subject to umask
+		err = fs.Chmod(tmp.Name(), perm)
+	}
+	if err == nil {
+		err = fs.Rename(tmp.Name(), path)
+	}
+	if err != nil {
+		_ = fs.Remove(tmp.Name())
+	}
+	return err
+}
+
+// create makes a new file, whose name no other process or goroutine is using,
+// next to path.
+func create(fs afero.Fs, path string, perm os.FileMode) (afero.File, error) {
+	dir, base := filepath.Split(path)
+	for n := 0; ; n++ {
+		name := filepath.Join(dir, fmt.Sprintf(".%s.%d-%d.tmp", base, os.Getpid(), n))
+		f, err := fs.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+		if os.IsExist(err) && n < 10000 {
+			continue
+		}
+		return f, err
+	}
+}
-- 
2.43.0


From 4de481a85328adfcdbca0d5d22981c00c610fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 02/50] fix: report packages that could not be downloaded

A bad server response was not an error at all, a missing file in a local
repository ended the process from a goroutine, and every other failed
download was only logged: the install went on to build a package with no
path.
---
 cran/download-package.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index acfda61..cf023e4 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -90,6 +91,8 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 		}
 	}
 	log.WithField("dir", baseDir).Info("downloading required packages within directory ")
+	var failed []string
+	var failedMutex sync.Mutex
 	for _, d := range ds {
 		wg.Add(1)
 		go func(d PkgDl, wg *sync.WaitGroup) {
@@ -124,9 +127,10 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 			startDl := time.Now()
 			dl, err := DownloadPackage(fs, d, pkgFile, rv, noSecure)
 			if err != nil {
-				// TODO:  should this cause a failure downstream rather than just printing
-				// as right now it keeps running and just doesn't install that package?
 				log.WithField("package", d.Package.Package).Warn("downloading failed")
+				failedMutex.Lock()
+				failed = append(failed, d.Package.Package)
+				failedMutex.Unlock()
 				return
 			}
 
@@ -141,6 +145,10 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 		}(d, &wg)
 	}
 	wg.Wait()
+	if len(failed) > 0 {
+		sort.Strings(failed)
+		return result, fmt.Errorf("failed to download packages: %s", strings.Join(failed, ", "))
+	}
 	log.WithField("duration", time.Since(startTime)).Info("all packages downloaded")
 	return result, nil
 }
@@ -217,7 +225,7 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			}).Warn("bad server response")
 			b, _ := ioutil.ReadAll(resp.Body)
 			log.WithField("package", d.Package.Package).Println("body: ", string(b))
-			return Download{Metadata: d}, err
+			return Download{Metadata: d}, fmt.Errorf("bad server response for %s: %s", pkgdl, resp.Status)
 		}
 		from = resp.Body
 		// not sure if we need to close both from and resp.Body but shouldn't be problematic to call twice just in case
@@ -228,7 +236,8 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			log.WithFields(log.Fields{
 				"package": d.Package.Package,
 				"path":    pkgdl,
-			}).Fatal("missing package")
+			}).Error("missing package")
+			return Download{Metadata: d}, err
 		}
 		defer from.Close()
 	}
-- 
2.43.0


From 31159d84cfc08619138b19cba6202ec72ccb9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 03/50] fix: download everything before touching the library

A failed download ended the install with the library already created, or
with the packages to update already moved away to __OLD__ directories and
never restored.
---
 cmd/install.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index b8ad05a..eb0d447 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -73,7 +73,22 @@ func rInstall(cmd *cobra.Command, args []string) error {
 				"library": cfg.Library,
 			}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
 		}
+	}
+
+	// Create a list of package download objects using our install plan and our "nexus" object.
+	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
+
+	// Retrieve a cache to store any packages we need to download for the install.
+	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
+
+	// Create a pkgMap object, which helps us with parallel downloads (?)
+	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
+	if err != nil {
+		log.Fatalf("error downloading packages: %s", err)
+	}
 
+	// Only touch the library once everything that is going to be installed is at hand.
+	if installPlan.CreateLibrary {
 		err := fs.MkdirAll(cfg.Library, 0755)
 		if err != nil {
 			log.WithFields(log.Fields{
@@ -89,18 +104,6 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	}
 	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
-	// Create a list of package download objects using our install plan and our "nexus" object.
-	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
-
-	// Retrieve a cache to store any packages we need to download for the install.
-	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
-
-	// Create a pkgMap object, which helps us with parallel downloads (?)
-	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
-	if err != nil {
-		log.Fatalf("error downloading packages: %s", err)
-	}
-
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
 	pkgInstallArgs.Library, _ = filepath.Abs(cfg.Library)
-- 
2.43.0


From 56357543ad16c3cd0b88666ef71c793da8f66a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 04/50] fix: never lose a package when updating or rolling back

A package that could not be moved aside was recorded as if it had been, so
the rollback deleted it; one problem stopped the rollback half way, and the
backups were deleted all the same; a package both outdated and given as a
tarball was moved aside twice; and an install that was killed left its
__OLD__ directories in the library, where they counted as packages, made the
next update fail, and were all that was left of the packages.
---
 cmd/install.go         |  34 +++++++++--
 pacman/utils.go        |  13 ++++
 rollback/operations.go | 132 ++++++++++++++++++++++++++++++++++-------
 rollback/types.go      |  23 ++++---
 4 files changed, 169 insertions(+), 33 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index eb0d447..6de8c0f 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -63,6 +63,14 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	// most people should know what platform they are on
 	log.Debugln("OS Platform " + rSettings.Platform)
 
+	err := rollback.RecoverInterruptedInstall(fs, cfg.Library)
+	if err != nil {
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+			"error":   err,
+		}).Fatal("could not clean up library after an interrupted install")
+	}
+
 	// Get master object containing the packages available in each repository (pkgNexus),
 	//  as well as a master install plan to guide our process.
 	_, installPlan, rollbackPlan := planInstall(rVersion, true)
@@ -100,9 +108,21 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	if !cfg.NoUpdate { // } && cfg.Rollback { We actually need this to run either way, as the "prepare packages for update" operation moves the current installations to __OLD__ folders, thus allowing updated versions to be installed.
 		log.Info("update argument passed. staging packages for update...")
-		rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
+		err = rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
+	}
+	if err == nil {
+		err = rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
+	}
+	if err != nil {
+		errRollback := rollback.RollbackPackageEnvironment(fs, rollbackPlan)
+		if errRollback != nil {
+			log.WithField("error", errRollback).Error("failed to reset package environment")
+		}
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+			"error":   err,
+		}).Fatal("could not back up packages to update")
 	}
-	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
@@ -139,18 +159,24 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
+	rolledBack := true
 	if !cfg.NoRollback {
 		// If anything went wrong during the installation, rollback the environment.
 		if err != nil || errInstallAdditional != nil {
 			errRollback := rollback.RollbackPackageEnvironment(fs, rollbackPlan)
 			if errRollback != nil {
+				rolledBack = false
 				log.WithFields(log.Fields{}).Error("failed to reset package environment after bad installation. Your package Library will be in a corrupt state. It is recommended you delete your Library and reinstall all packages.")
 			}
 		}
 	}
 	// If any packages were being updated, we need to remove any leftover backup folders that were created.
-	// Errors are handled in the lower functions
-	_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	// If they could not be restored, though, they are all there is left of a package.
+	if rolledBack {
+		for _, errDelete := range rollbackPlan.DeleteBackupPackageFolders(fs) {
+			log.WithField("error", errDelete).Error("could not remove backup of updated package")
+		}
+	}
 
 	log.Info("duration:", time.Since(startTime))
 
diff --git a/pacman/utils.go b/pacman/utils.go
index d6db434..a8d0210 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"path/filepath"
+	"strings"
 
 	"github.com/dpastoor/goutils"
 	"github.com/metrumresearchgroup/pkgr/cran"
@@ -12,6 +13,15 @@ import (
 	"github.com/spf13/afero"
 )
 
+// Directories in a library with one of these prefixes are not packages: they are
+// leftovers of an install that was interrupted.
+const (
+	// BackupPrefix marks the previous installation of a package that is being updated
+	BackupPrefix = "__OLD__"
+	// TrashPrefix marks a directory that is being removed
+	TrashPrefix = "__TRASH__"
+)
+
 // GetPriorInstalledPackages ...
 func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[string]desc.Desc {
 	installed := make(map[string]desc.Desc)
@@ -27,6 +37,9 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
+		if strings.HasPrefix(pkgFolder, BackupPrefix) || strings.HasPrefix(pkgFolder, TrashPrefix) {
+			continue
+		}
 		descriptionFilePath := filepath.Join(libraryPath, pkgFolder, "DESCRIPTION")
 		installedPackage, err := scanInstalledPackage(descriptionFilePath, fileSystem)
 
diff --git a/rollback/operations.go b/rollback/operations.go
index fd901cf..f93abf3 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -2,9 +2,12 @@ package rollback
 
 import (
 	"github.com/metrumresearchgroup/pkgr/cran"
+	"github.com/metrumresearchgroup/pkgr/pacman"
 	"github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
+	"os"
 	"path/filepath"
+	"strings"
 )
 
 // RollbackPackageEnvironment "executes" the given RollbackPlan, thereby resetting the environment to the state it was in before rbp.InstallPlan was applied.
@@ -14,7 +17,7 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	logrus.Trace("Resetting package environment")
 
 	if rbp.InstallPlan.CreateLibrary {
-		err0 := fileSystem.RemoveAll(rbp.Library)
+		err0 := removeLibrary(fileSystem, rbp.Library)
 
 		if err0 != nil {
 			logrus.WithFields(logrus.Fields{
@@ -27,14 +30,19 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 		return nil
 	}
 
+	// A problem with one package is no reason not to reset the others.
+	var firstErr error
+
 	for _, pkg := range rbp.NewPackages {
-		err1 := fileSystem.RemoveAll(filepath.Join(rbp.Library, pkg))
+		err1 := removePackage(fileSystem, filepath.Join(rbp.Library, pkg))
 		if err1 != nil {
 			logrus.WithFields(logrus.Fields{
 				"library": rbp.Library,
 				"package": pkg,
 			}).Warn("failed to remove package during rollback", err1)
-			return err1
+			if firstErr == nil {
+				firstErr = err1
+			}
 		}
 	}
 
@@ -42,20 +50,20 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	//restored from backups.
 	if len(rbp.UpdateRollbacks) > 0 {
 		err2 := rollbackChangedPackages(fileSystem, rbp.UpdateRollbacks)
-		if err2 != nil {
-			return err2
+		if err2 != nil && firstErr == nil {
+			firstErr = err2
 		}
 	}
 
 	//Rollback additional packages -- same process as updated packages, but we hold them in a separate object.
 	if len(rbp.AdditionalPkgRollbacks) > 0 {
 		err3 := rollbackChangedPackages(fileSystem, rbp.AdditionalPkgRollbacks)
-		if err3 != nil {
-			return err3
+		if err3 != nil && firstErr == nil {
+			firstErr = err3
 		}
 	}
 
-	return nil
+	return firstErr
 }
 
 func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateAttempt) error {
@@ -64,23 +72,27 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 		return nil
 	}
 
+	var firstErr error
+
 	for _, info := range packageBackupInfo {
 
 		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
 		//_, err1 := fileSystem.Stat(info.BackupPackageDirectory) // Checking existence
 		if backupExists {
-			err1 := fileSystem.RemoveAll(info.BackupPackageDirectory)
+			err1 := removePackage(fileSystem, info.BackupPackageDirectory)
 			if err1 != nil {
 				logrus.WithFields(logrus.Fields{
 					"package":           info.Package,
 					"problem_directory": info.BackupPackageDirectory,
 				}).Warn("could not delete directory during cleanup")
-				return err1
+				if firstErr == nil {
+					firstErr = err1
+				}
 			}
 		}
 	}
 
-	return nil
+	return firstErr
 }
 
 func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAttempt) error {
@@ -90,6 +102,8 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 		return nil
 	}
 
+	var firstErr error
+
 	for _, info := range packageBackupInfo {
 
 		logrus.WithFields(logrus.Fields{
@@ -100,13 +114,16 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 
 		_, err1 := fileSystem.Stat(info.ActivePackageDirectory) // Checking existence
 		if err1 == nil {
-			err1 = fileSystem.RemoveAll(info.ActivePackageDirectory)
+			err1 = removePackage(fileSystem, info.ActivePackageDirectory)
 			if err1 != nil {
 				logrus.WithFields(logrus.Fields{
 					"package":           info.Package,
 					"problem_directory": info.ActivePackageDirectory,
 				}).Warn("could not delete directory during package rollback")
-				return err1
+				if firstErr == nil {
+					firstErr = err1
+				}
+				continue
 			}
 		}
 
@@ -116,29 +133,36 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 			logrus.WithFields(logrus.Fields{
 				"pkg": info.Package,
 			}).Warn("could not rollback package -- package will need reinstallation.")
-			return err2
+			if firstErr == nil {
+				firstErr = err2
+			}
 		}
 
 	}
 
-	return nil
+	return firstErr
 }
 
-// createUpdateBackupFolders ...
-func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdatedPackages []cran.OutdatedPackage) []UpdateAttempt {
+// createUpdateBackupFolders returns the packages that were backed up, also when it
+// could not back up all of them.
+func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdatedPackages []cran.OutdatedPackage) ([]UpdateAttempt, error) {
 	var updateAttempts []UpdateAttempt
 
 	//Tag each outdated pkg directory in library with "__OLD__"
 	for _, pkg := range outdatedPackages {
-		updateAttempts = append(updateAttempts, tagOldInstallation(fileSystem, libraryPath, pkg))
+		updateAttempt, err := tagOldInstallation(fileSystem, libraryPath, pkg)
+		if err != nil {
+			return updateAttempts, err
+		}
+		updateAttempts = append(updateAttempts, updateAttempt)
 	}
 
-	return updateAttempts
+	return updateAttempts, nil
 }
 
-func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) UpdateAttempt {
+func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) (UpdateAttempt, error) {
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
-	taggedPackageDir := filepath.Join(libraryPath, "__OLD__"+outdatedPackage.Package)
+	taggedPackageDir := filepath.Join(libraryPath, pacman.BackupPrefix+outdatedPackage.Package)
 
 	err := fileSystem.Rename(packageDir, taggedPackageDir)
 	//err := RenameDirRecursive(fileSystem, packageDir, taggedPackageDir)
@@ -146,6 +170,7 @@ func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage
 	if err != nil {
 		logrus.WithField("package dir", packageDir).Warn("error when backing up outdated package")
 		logrus.Error(err)
+		return UpdateAttempt{}, err
 	}
 
 	return UpdateAttempt{
@@ -154,5 +179,70 @@ func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage
 		BackupPackageDirectory: taggedPackageDir,
 		OldVersion:             outdatedPackage.OldVersion,
 		NewVersion:             outdatedPackage.NewVersion,
+	}, nil
+}
+
+// removePackage removes a package directory in a way that, if interrupted, never leaves part of a
+// package behind under a name that counts as one.
+func removePackage(fileSystem afero.Fs, packageDir string) error {
+	trashDir := filepath.Join(filepath.Dir(packageDir), pacman.TrashPrefix+filepath.Base(packageDir))
+	if err := fileSystem.RemoveAll(trashDir); err != nil {
+		return err
 	}
+	if err := fileSystem.Rename(packageDir, trashDir); err != nil {
+		if os.IsNotExist(err) {
+			return nil
+		}
+		return err
+	}
+	return fileSystem.RemoveAll(trashDir)
+}
+
+// removeLibrary removes the library with all the packages in it.
+func removeLibrary(fileSystem afero.Fs, libraryPath string) error {
+	entries, err := afero.ReadDir(fileSystem, libraryPath)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	for _, entry := range entries {
+		if entry.IsDir() && !strings.HasPrefix(entry.Name(), pacman.TrashPrefix) {
+			if err := removePackage(fileSystem, filepath.Join(libraryPath, entry.Name())); err != nil {
+				return err
+			}
+		}
+	}
+	return fileSystem.RemoveAll(libraryPath)
+}
+
+// RecoverInterruptedInstall puts the library back into the state it had before an install that was
+// killed: backups it left behind become the installed packages again, and half removed directories
+// are removed.
+func RecoverInterruptedInstall(fileSystem afero.Fs, libraryPath string) error {
+	entries, err := afero.ReadDir(fileSystem, libraryPath)
+	if os.IsNotExist(err) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	for _, entry := range entries {
+		path := filepath.Join(libraryPath, entry.Name())
+		switch {
+		case !entry.IsDir():
+		case strings.HasPrefix(entry.Name(), pacman.TrashPrefix):
+			err = fileSystem.RemoveAll(path)
+		case strings.HasPrefix(entry.Name(), pacman.BackupPrefix):
+			pkg := strings.TrimPrefix(entry.Name(), pacman.BackupPrefix)
+			logrus.WithField("package", pkg).Warn("found backup of package from an interrupted install, restoring it")
+			active := filepath.Join(libraryPath, pkg)
+			err = removePackage(fileSystem, active)
+			if err == nil {
+				err = fileSystem.Rename(path, active)
+			}
+		}
+		if err != nil {
+			return err
+		}
+	}
+	return nil
 }
diff --git a/rollback/types.go b/rollback/types.go
index 9b827f8..660a8f8 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -36,7 +36,7 @@ func CreateRollbackPlan(library string, installPlan gpsr.InstallPlan, preinstall
 }
 
 // createUpdateBackupFolders backs up outdated packages in the library by renaming them, thus making space for the updated versions to install.
-func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) {
+func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) error {
 
 	//InstallPlan is aware of _all_ preinstalled packages, even if they're not in pkgr.yml. We don't want to touch
 	//preinstalled packages that weren't in pkgr.yml, so we just want to take the active packages from the install plan.
@@ -49,24 +49,31 @@ func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) {
 	}
 
 	// Wrap this function for now until we're ready to move it over.
-	updateAttempts := createUpdateBackupFolders(fs, library, opFiltered)
+	updateAttempts, err := createUpdateBackupFolders(fs, library, opFiltered)
 	rp.UpdateRollbacks = updateAttempts
+	return err
 }
 
-func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, library string) {
-	var overwriteAttempts []UpdateAttempt
+func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, library string) error {
+	backedUp := make(map[string]bool)
+	for _, attempt := range rp.UpdateRollbacks {
+		backedUp[attempt.Package] = true
+	}
 	for pkg := range rp.InstallPlan.AdditionalPackageSources {
 		preinstPkg, isPreinstalled := rp.PreinstalledPackages[pkg]
-		if isPreinstalled {
-			overwriteAttempt := tagOldInstallation(fs, library, cran.OutdatedPackage{
+		if isPreinstalled && !backedUp[pkg] {
+			overwriteAttempt, err := tagOldInstallation(fs, library, cran.OutdatedPackage{
 				Package:    pkg,
 				OldVersion: preinstPkg.Version,
 				NewVersion: "[from tarball]",
 			})
-			overwriteAttempts = append(overwriteAttempts, overwriteAttempt)
+			if err != nil {
+				return err
+			}
+			rp.AdditionalPkgRollbacks = append(rp.AdditionalPkgRollbacks, overwriteAttempt)
 		}
 	}
-	rp.AdditionalPkgRollbacks = overwriteAttempts
+	return nil
 }
 
 func (rp *RollbackPlan) DeleteBackupPackageFolders(fs afero.Fs) []error {
-- 
2.43.0


From a54a5ce52b2d0893f0081b5e261308734c6547d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 05/50] fix: don't take a library that can't be read for an
 empty one

The rollback of a failed install then deleted the packages, or the whole
library, that the plan had not seen.
---
 cmd/plan.go     | 10 ++++++++--
 pacman/utils.go | 35 ++++++++++++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 83490c7..31cc7bb 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -90,7 +90,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		log.WithFields(log.Fields{
 			"library": cfg.Library,
 			"error":   err,
-		}).Error("unexpected error when checking existence of library")
+		}).Fatal("unexpected error when checking existence of library")
 	}
 
 	if !libraryExists && cfg.Strict {
@@ -104,7 +104,13 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 	var whereInstalledFrom pacman.InstalledFromPkgs
 
 	if libraryExists {
-		installedPackages = pacman.GetPriorInstalledPackages(fs, cfg.Library)
+		installedPackages, err = pacman.ReadInstalledPackages(fs, cfg.Library)
+		if err != nil {
+			log.WithFields(log.Fields{
+				"library": cfg.Library,
+				"error":   err,
+			}).Fatal("could not read the packages installed in the library")
+		}
 		installedPackageNames = extractNamesFromDesc(installedPackages)
 		log.WithField("count", len(installedPackages)).Info("found installed packages")
 		whereInstalledFrom = pacman.GetInstallers(installedPackages)
diff --git a/pacman/utils.go b/pacman/utils.go
index a8d0210..eae1379 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -3,6 +3,7 @@ package pacman
 import (
 	"errors"
 	"fmt"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -22,18 +23,33 @@ const (
 	TrashPrefix = "__TRASH__"
 )
 
-// GetPriorInstalledPackages ...
+// GetPriorInstalledPackages returns the packages installed in the library, leaving out
+// what it can't read.
 func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[string]desc.Desc {
+	installed, err := ReadInstalledPackages(fileSystem, libraryPath)
+	if err != nil {
+		log.Error(err)
+	}
+	return installed
+}
+
+// ReadInstalledPackages returns the packages installed in the library. An error says that
+// there may be more of them, because something could not be read. A missing library, and
+// directories that don't hold a valid package, are not errors.
+func ReadInstalledPackages(fileSystem afero.Fs, libraryPath string) (map[string]desc.Desc, error) {
 	installed := make(map[string]desc.Desc)
 	installedLibrary, err := fileSystem.Open(libraryPath)
 
 	if err != nil {
 		log.WithField("libraryPath", libraryPath).Warn("package library not found at given library path")
-		return installed
+		if os.IsNotExist(err) {
+			err = nil
+		}
+		return installed, err
 	}
 	defer installedLibrary.Close()
 
-	fileInfo, _ := installedLibrary.Readdir(0)
+	fileInfo, readErr := installedLibrary.Readdir(0)
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
@@ -45,7 +61,10 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 
 		if err != nil {
 			log.Error(err)
-			err = nil
+			var pathErr *os.PathError
+			if errors.As(err, &pathErr) && !os.IsNotExist(err) && readErr == nil {
+				readErr = err
+			}
 		} else {
 			log.WithFields(log.Fields{
 				"package":     installedPackage.Package,
@@ -57,7 +76,7 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 		}
 	}
 
-	return installed
+	return installed, readErr
 }
 
 // GetInstallers returns the installers for the installed packages
@@ -112,6 +131,12 @@ func scanInstalledPackage(
 
 	installedPackage, err := desc.ParseDesc(descriptionFile)
 
+	var pathErr *os.PathError
+	if errors.As(err, &pathErr) {
+		log.WithField("file", descriptionFilePath).Warn("could not read DESCRIPTION of installed package.")
+		return desc.Desc{}, err
+	}
+
 	if installedPackage.Package == "" {
 		err = errors.New(fmt.Sprintf("encountered a description file without package name: %s", descriptionFile))
 		log.WithField("description file", descriptionFilePath).Error(err)
-- 
2.43.0


From 36d8314a89219bea1e24b4bd540eeea171b47c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 06/50] fix: install over what is left of a damaged package

A package directory without a readable DESCRIPTION was not counted as
installed by the plan, but the install skipped it as already installed, and
a rollback deleted it as new.
---
 cmd/install.go    |  3 ++-
 rollback/types.go | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 6de8c0f..a6097c6 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -106,7 +106,8 @@ func rInstall(cmd *cobra.Command, args []string) error {
 		}
 	}
 
-	if !cfg.NoUpdate { // } && cfg.Rollback { We actually need this to run either way, as the "prepare packages for update" operation moves the current installations to __OLD__ folders, thus allowing updated versions to be installed.
+	err = rollbackPlan.PrepareUnrecognizedPackages(fs, cfg.Library)
+	if err == nil && !cfg.NoUpdate { // } && cfg.Rollback { We actually need this to run either way, as the "prepare packages for update" operation moves the current installations to __OLD__ folders, thus allowing updated versions to be installed.
 		log.Info("update argument passed. staging packages for update...")
 		err = rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
 	}
diff --git a/rollback/types.go b/rollback/types.go
index 660a8f8..7f644c3 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -6,6 +6,7 @@ import (
 	"github.com/metrumresearchgroup/pkgr/gpsr"
 	"github.com/spf13/afero"
 	"github.com/thoas/go-funk"
+	"path/filepath"
 )
 
 // RollbackPlan maintains information about what's being changed on an install, which it can use to "undo" the application of an InstallPlan.
@@ -50,10 +51,38 @@ func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) er
 
 	// Wrap this function for now until we're ready to move it over.
 	updateAttempts, err := createUpdateBackupFolders(fs, library, opFiltered)
-	rp.UpdateRollbacks = updateAttempts
+	rp.UpdateRollbacks = append(rp.UpdateRollbacks, updateAttempts...)
 	return err
 }
 
+// PrepareUnrecognizedPackages backs up directories that are in the way of packages to install: what
+// they hold is not a valid package, or it would be among the preinstalled ones.
+func (rp *RollbackPlan) PrepareUnrecognizedPackages(fs afero.Fs, library string) error {
+	var newPackages, unrecognized []string
+	for _, pkg := range funk.UniqString(rp.NewPackages) {
+		exists, err := afero.DirExists(fs, filepath.Join(library, pkg))
+		if err != nil {
+			rp.NewPackages = nil // nothing has been installed yet
+			return err
+		}
+		if exists {
+			unrecognized = append(unrecognized, pkg)
+		} else {
+			newPackages = append(newPackages, pkg)
+		}
+	}
+	rp.NewPackages = newPackages
+
+	for _, pkg := range unrecognized {
+		attempt, err := tagOldInstallation(fs, library, cran.OutdatedPackage{Package: pkg})
+		if err != nil {
+			return err
+		}
+		rp.UpdateRollbacks = append(rp.UpdateRollbacks, attempt)
+	}
+	return nil
+}
+
 func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, library string) error {
 	backedUp := make(map[string]bool)
 	for _, attempt := range rp.UpdateRollbacks {
-- 
2.43.0


From 5b160b765c3c13dc05aef22353a3c8486f47a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 07/50] fix: don't wait forever for packages that are not going
 to be installed

The install waited for requests it had dropped (because a package failed
or had been requested before) and for packages whose binary could not be
copied to the cache.
---
 rcmd/install.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 28a40b3..6a1dd67 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -12,6 +12,7 @@ import (
 	"runtime"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -413,7 +414,7 @@ func InstallPackagePlan(
 	installedPkgs := make(map[string]bool)
 	// if packages ID'd as ready to install signal so can push them only the queue
 	shouldInstall := make(chan string)
-	anyFailed := false
+	var anyFailed atomic.Bool // set from the update handler, checked from the goroutine below as well
 
 	packagesNeeded := plan.GetNumPackagesToInstall()
 
@@ -425,9 +426,10 @@ func InstallPackagePlan(
 		ncpu,
 		InstallThroughBinary,
 		func(iu InstallUpdate) {
+			defer wg.Done()
 			if iu.Err != nil {
 				log.WithField("err", iu.Err).Warn("error installing")
-				anyFailed = true
+				anyFailed.Store(true)
 				failedPkgs = append(failedPkgs, iu.Package)
 			} else {
 				// set that the package is installed,
@@ -458,7 +460,7 @@ func InstallPackagePlan(
 								allInstalled = false
 							}
 						}
-						if allInstalled && !anyFailed {
+						if allInstalled && !anyFailed.Load() {
 							wg.Add(1)
 							log.WithFields(log.Fields{
 								"from":      iu.Package,
@@ -494,14 +496,14 @@ func InstallPackagePlan(
 
 				}
 			}
-			wg.Done()
 		}, // End anonymous function
 	) // End NewInstallQueue
 	go func(c chan string) {
 		requestedPkgs := make(map[string]bool)
 		for p := range c {
-			if anyFailed {
+			if anyFailed.Load() {
 				// stop trying to install any more
+				wg.Done()
 				continue
 			}
 
@@ -510,6 +512,7 @@ func InstallPackagePlan(
 			_, seen := requestedPkgs[p]
 			if seen {
 				// should only need to request a package once to install
+				wg.Done()
 				continue
 			} else {
 				requestedPkgs[p] = true
@@ -543,7 +546,7 @@ func InstallPackagePlan(
 		}
 	}
 
-	if anyFailed {
+	if anyFailed.Load() {
 		log.Errorf("installation failed for packages: %s", strings.Join(failedPkgs, ", "))
 		return fmt.Errorf("failed installation for packages: %s", strings.Join(failedPkgs, ", "))
 	}
-- 
2.43.0


From f2481e35f84b9644a29bdd946344608f63be4e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 08/50] fix: fail the install of a package whose tarball is
 missing

It was reported as successfully installed; a missing working directory was
a nil pointer dereference.
---
 rcmd/install.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index 6a1dd67..f750f74 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -85,6 +85,9 @@ func Install(
 	} else {
 		ok, err := afero.DirExists(fs, rdir)
 		if !ok || err != nil {
+			if err == nil {
+				err = fmt.Errorf("%s is not a directory", rdir)
+			}
 			// TODO replace with better error
 			return CmdResult{
 				Stderr:   err.Error(),
@@ -113,6 +116,7 @@ func Install(
 		} else {
 			// nil error not ok
 			errs = fmt.Sprintf("%s does not exist", pkgPath)
+			err = errors.New(errs)
 		}
 		return CmdResult{
 			Stderr:   fmt.Sprintf("err: %s, ok: %v", errs, ok),
-- 
2.43.0


From 50e6e47cc395d11a07c13e991b1ba889599b8f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 09/50] fix: put binaries into the cache atomically

A partial copy was later installed as if it were the package.
---
 rcmd/install.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index f750f74..af9a2e4 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -21,6 +21,7 @@ import (
 	"github.com/fatih/structtag"
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
+	"github.com/metrumresearchgroup/pkgr/internal/atomicfile"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	funk "github.com/thoas/go-funk"
@@ -396,6 +397,19 @@ func InstallThroughBinary(
 	return res, "", err
 }
 
+// copyFile copies a file such that to is never just a part of from
+func copyFile(fs afero.Fs, from, to string) error {
+	src, err := fs.Open(from)
+	if err != nil {
+		return err
+	}
+	defer src.Close()
+	return atomicfile.Write(fs, to, 0666, func(dst io.Writer) error {
+		_, err := io.Copy(dst, src)
+		return err
+	})
+}
+
 // InstallPackagePlan installs a set of packages by layer
 func InstallPackagePlan(
 	fs afero.Fs,
@@ -485,7 +499,7 @@ func InstallPackagePlan(
 						rs.Version.ToString(),
 						filepath.Base(iu.BinaryPath),
 					)
-					_, err := goutils.Copy(iu.BinaryPath, bpath)
+					err := copyFile(fs, iu.BinaryPath, bpath)
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
-- 
2.43.0


From 7176e02f282314f6b722745d939d462b6b595013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 10/50] fix: annotate DESCRIPTION files atomically

A failed or interrupted update left an installed package with a truncated
DESCRIPTION, and the install was reported as successful.
---
 rcmd/install.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index af9a2e4..b66a78a 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -1,6 +1,7 @@
 package rcmd
 
 import (
+	"bufio"
 	"bytes"
 	"errors"
 	"fmt"
@@ -182,11 +183,15 @@ func Install(
 		}
 	} else {
 		// update DESCRIPTION file with pkgr metadata
-		writeDescriptionInfo(fs, ir, args)
+		err = writeDescriptionInfo(fs, ir, args)
 
 		// success, exitCode should be 0 if go is ok
 		ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		exitCode = ws.ExitStatus()
+		if err != nil {
+			exitCode = defaultFailedCode
+			stderr = err.Error()
+		}
 	}
 
 	cmdResult := CmdResult{
@@ -571,7 +576,7 @@ func InstallPackagePlan(
 	return nil
 }
 
-func writeDescriptionInfo(fs afero.Fs, ir InstallRequest, ia InstallArgs) {
+func writeDescriptionInfo(fs afero.Fs, ir InstallRequest, ia InstallArgs) error {
 	_, err := updateDescriptionInfo(
 		fs,
 		filepath.Join(ia.Library, ir.Package, "DESCRIPTION"),
@@ -583,15 +588,24 @@ func writeDescriptionInfo(fs afero.Fs, ir InstallRequest, ia InstallArgs) {
 	if err != nil {
 		log.Warn(fmt.Sprintf("DESCRIPTION file error:%s", err))
 	}
+	return err
 }
 
 // function to apply relevant changes to DESCRIPTION file (if applicable) and ultimately write out the updated
 // DESCRIPTION file.
 func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL, repo string) ([]string, error) {
-	descriptionLines, err := goutils.ReadLinesFS(fs, filename)
+	description, err := afero.ReadFile(fs, filename)
 	if err != nil {
 		return nil, err
 	}
+	var descriptionLines []string
+	scanner := bufio.NewScanner(bytes.NewReader(description))
+	for scanner.Scan() {
+		descriptionLines = append(descriptionLines, scanner.Text())
+	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	descriptionFinal := updateDescriptionInfoByLines(descriptionLines, version, installType, repoURL, repo)
 	err = writeUpdatedDescriptionFile(fs, filename, descriptionFinal)
 
@@ -600,7 +614,13 @@ func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL,
 
 // writes a slice of strings out to a file. Adds newline characters to the end of the each line.
 func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string) error {
-	err := goutils.WriteLinesFS(fs, update, filename)
+	err := atomicfile.Write(fs, filename, 0666, func(file io.Writer) error {
+		w := bufio.NewWriter(file)
+		for _, line := range update {
+			fmt.Fprintln(w, line)
+		}
+		return w.Flush()
+	})
 
 	if err != nil {
 		log.WithFields(log.Fields{
-- 
2.43.0


From c3f135a140ea07552887468e425fe55bc572d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 11/50] fix: don't install tarballs after the packages they
 depend on failed

---
 cmd/install.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/install.go b/cmd/install.go
index a6097c6..fc3eb03 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -156,7 +156,11 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	//
 	// Install the tarballs, if applicable.
 	//
-	errInstallAdditional := installAdditionalPackages(installPlan, rSettings, cfg.Library, cfg.Cache)
+	// They may depend on any of the packages above.
+	var errInstallAdditional error
+	if err == nil {
+		errInstallAdditional = installAdditionalPackages(installPlan, rSettings, cfg.Library, cfg.Cache)
+	}
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
-- 
2.43.0


From a50b6ee0b7a18758fa4c8385c2371d9947b7995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 12/50] fix: don't let a damaged cached index stop every
 install

The cached package index was written in place; when that failed or was
interrupted, or another pkgr was reading it at that time, every run failed
to decode it until the cache expired. Write it atomically, and get the index
again if the cached one can't be read.
---
 cran/repodb.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 07014ee..4916a61 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -17,8 +17,10 @@ import (
 	"time"
 
 	"github.com/metrumresearchgroup/pkgr/desc"
+	"github.com/metrumresearchgroup/pkgr/internal/atomicfile"
 	homedir "github.com/mitchellh/go-homedir"
 	log "github.com/sirupsen/logrus"
+	"github.com/spf13/afero"
 )
 
 // NewRepoDb returns a new Repo database
@@ -60,7 +62,18 @@ func (repoDb *RepoDb) Decode(file string) error {
 	}
 	defer f.Close()
 	d := gob.NewDecoder(f)
-	return d.Decode(&repoDb.DescriptionsBySourceType)
+	descriptions := make(map[SourceType]map[string]desc.Desc)
+	if err := d.Decode(&descriptions); err != nil {
+		// don't keep what was decoded up to here
+		return err
+	}
+	for st := range repoDb.DescriptionsBySourceType {
+		if _, ok := descriptions[st]; !ok {
+			return fmt.Errorf("crandb %s has no %s packages", file, st)
+		}
+	}
+	repoDb.DescriptionsBySourceType = descriptions
+	return nil
 }
 
 // Encode encodes the PackageDatabase
@@ -69,18 +82,10 @@ func (repoDb *RepoDb) Encode(file string) error {
 	if err != nil {
 		return err
 	}
-	f, err := os.Create(file)
-	if err != nil {
-		return err
-	}
-	e := gob.NewEncoder(f)
-
-	// Encoding the map
-	err = e.Encode(repoDb.DescriptionsBySourceType)
-	if err != nil {
-		return err
-	}
-	return nil
+	return atomicfile.Write(afero.NewOsFs(), file, 0666, func(f io.Writer) error {
+		// Encoding the map
+		return gob.NewEncoder(f).Encode(repoDb.DescriptionsBySourceType)
+	})
 }
 
 // Hash provides a hash based on the RepoDb sources
@@ -120,7 +125,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 	var err error
 	pkgdbFile := repoDb.GetRepoDbCacheFilePath(rVersion.ToFullString())
 
-	if fi, err := os.Stat(pkgdbFile); !os.IsNotExist(err) {
+	if fi, err := os.Stat(pkgdbFile); err == nil {
 		maxSecs := 3600
 		maxAge, ok := os.LookupEnv("R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE")
 		if ok {
@@ -133,7 +138,11 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 		if fi.ModTime().Add(time.Duration(maxSecs)*time.Second).Unix() > time.Now().Unix() {
 			// only read if was cached in the last hour
-			return repoDb.Decode(pkgdbFile)
+			err := repoDb.Decode(pkgdbFile)
+			if err == nil {
+				return nil
+			}
+			log.Warnf("problem reading cached crandb %s: %s, downloading it again", pkgdbFile, err)
 		}
 		err := os.Remove(pkgdbFile)
 		if err != nil {
-- 
2.43.0


From 6bdc8c786e62dc38edbb4a260487be7f3e0cbdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 13/50] fix: don't take a repository whose index can't be had
 for an empty one

Errors were ignored for repositories with source packages only, as were
errors reading the index of a local repository, and the empty index was
cached for an hour.
---
 cran/repodb.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 4916a61..921c8e8 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -204,11 +204,12 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 			} else {
 				pkgdir, _ := homedir.Expand(pkgURL)
 				pkgdir, _ = filepath.Abs(pkgdir)
-				if fi, err := os.Open(pkgdir); !os.IsNotExist(err) {
-					body, err = ioutil.ReadAll(fi)
-					fi.Close()
-				} else {
+				var err error
+				body, err = ioutil.ReadFile(pkgdir)
+				if os.IsNotExist(err) {
 					err = fmt.Errorf("no package file found at: %s", pkgdir)
+				}
+				if err != nil {
 					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
 					return
 				}
@@ -273,7 +274,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 	}
 	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
-	if len(repoDb.DescriptionsBySourceType) > 1 && errorCount == len(repoDb.DescriptionsBySourceType) {
+	if errorCount == len(repoDb.DescriptionsBySourceType) {
 		return lasterr
 	}
 
-- 
2.43.0


From 0ad76fc0e4e0902344a625123d9bc084d46762e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 14/50] fix: cache package indexes per repository suffix

After changing the suffix of a repository the cached index of the binaries
for the previous one was used.
---
 cran/repodb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 921c8e8..7ebce97 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -100,6 +100,10 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 	}
 
 	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion)
+	if repoDb.RepoSuffix != "" {
+		// binaries come from a different place
+		io.WriteString(h, " "+repoDb.RepoSuffix)
+	}
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
-- 
2.43.0


From 70d357d89e87a4426b9d066fd83197218aefdad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 15/50] fix: unpack tarballs into the cache atomically

A tarball that was only partly unpacked, because of an error or because
pkgr was killed, was used as if it were complete ever after.
---
 cmd/tarballOps.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 4bbd650..9dff75c 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"fmt"
 	"github.com/metrumresearchgroup/pkgr/desc"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
 	"github.com/metrumresearchgroup/pkgr/internal/archive"
@@ -84,7 +85,7 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 			"source_tarball": path,
 		}).Debug("using cached tarball.")
 	} else {
-		err = archive.Extract(path, tarballDirectoryPath)
+		err = extractTo(fs, path, tarballDirectoryPath)
 		if err != nil {
 			logrus.WithFields(logrus.Fields{
 				"path": path,
@@ -136,6 +137,23 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 	return filepath.Join(tarballDirectoryPath, extractedDirs[0].Name())
 }
 
+// extractTo extracts the tarball such that dir, if it exists, always holds all of it.
+func extractTo(fs afero.Fs, path string, dir string) error {
+	tmpDir := fmt.Sprintf("%s.%d.tmp", dir, os.Getpid())
+	defer fs.RemoveAll(tmpDir)
+	if err := archive.Extract(path, tmpDir); err != nil {
+		return err
+	}
+	err := fs.Rename(tmpDir, dir)
+	if err != nil {
+		// another pkgr may have been faster
+		if exists, _ := afero.DirExists(fs, dir); exists {
+			return nil
+		}
+	}
+	return err
+}
+
 func getHashedTarballName(tgzFile afero.File) (string, error) {
 	hash := md5.New()
 	_, err := io.Copy(hash, tgzFile)
-- 
2.43.0


From f24f0973ffe14f08d26381db9659485e63b1eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 16/50] fix: remove unpacked tarballs from the default cache
 too

Without a Cache setting, clean cache looked for them in the working
directory, where it removed directories of the same name.
---
 cmd/cleanCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 923c19c..77d2136 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -113,7 +113,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cfg.Cache, hashedDirectoryName))
+		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
-- 
2.43.0


From e89f29d40d1daa74a718ddb6baebd828d7c24927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 17/50] fix: report what could not be cleaned from the cache

Errors were dropped, and a cache that did not exist was a nil pointer
dereference.
---
 cmd/cleanCache.go | 66 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 77d2136..b7a4ea9 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"errors"
+	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -61,8 +62,7 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
-	cleanCacheFolders()
-	return nil
+	return cleanCacheFolders()
 }
 
 func cleanCacheFolders() error {
@@ -83,32 +83,46 @@ func cleanCacheFolders() error {
 
 	if !srcOnly && !binariesOnly {
 		log.Info("clearing source and binary files from the cache")
-		deleteAllCacheSubfolders(fs, repos, cachePath)
+		err := deleteAllCacheSubfolders(fs, repos, cachePath)
+		if err != nil {
+			return err
+		}
 	} else if srcOnly && binariesOnly {
 		err := errors.New("invalid argument combination -- cannot combine srcOnly and binaryOnly flags")
 		log.Error(err)
 		return err
 	} else if srcOnly {
 		log.Info("clearing source files only from the cache")
-		deleteCacheSubfolders(fs, repos, "src", cachePath)
+		err := deleteCacheSubfolders(fs, repos, "src", cachePath)
+		if err != nil {
+			return err
+		}
 	} else if binariesOnly {
 		log.Info("clearing binary files only from the cache")
-		deleteCacheSubfolders(fs, repos, "binary", cachePath)
+		err := deleteCacheSubfolders(fs, repos, "binary", cachePath)
+		if err != nil {
+			return err
+		}
 	} else {
 		return errors.New("'what? that's impossible! my logic is flawless!'")
 	}
 
 	// Clear the tarballs
 	log.Info("clearing unpacked tarballs from the cache")
+	var tarballErr error
 	for _, tgzFile := range cfg.Tarballs {
 		openedTgz, err := fs.Open(tgzFile)
 		if err != nil {
 			log.WithField("file", tgzFile).Warn("could not find untarred directory in local cache for file")
+			if !os.IsNotExist(err) {
+				tarballErr = err
+			}
 			continue
 		}
 		hashedDirectoryName, err := getHashedTarballName(openedTgz)
 		if err != nil {
 			log.WithField("file", tgzFile).Warn("could not get hashed name for tarball when cleaning cache. skipping delete...")
+			tarballErr = err
 			openedTgz.Close()
 			continue
 		}
@@ -119,30 +133,48 @@ func cleanCacheFolders() error {
 				"file":  tgzFile,
 				"error": err,
 			}).Error("error removing tarball from cache")
+			tarballErr = err
 		}
 
 	}
 
-	return nil
+	return tarballErr
 }
 
-func deleteAllCacheSubfolders(fs afero.Fs, repos []string, cacheDirectory string) {
-	deleteCacheSubfolders(fs, repos, "src", cacheDirectory)
-	deleteCacheSubfolders(fs, repos, "binary", cacheDirectory)
+func deleteAllCacheSubfolders(fs afero.Fs, repos []string, cacheDirectory string) error {
+	errSrc := deleteCacheSubfolders(fs, repos, "src", cacheDirectory)
+	errBinary := deleteCacheSubfolders(fs, repos, "binary", cacheDirectory)
+	if errSrc != nil {
+		return errSrc
+	}
+	return errBinary
 }
 
 func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheDirectory string) error {
-	var err error
+	var firstErr error
+	failed := func(err error) {
+		log.Error(err)
+		if firstErr == nil {
+			firstErr = err
+		}
+	}
 
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
-	defer cacheDirFsObject.Close()
+	if os.IsNotExist(err) {
+		// nothing to clean
+		return nil
+	}
 	if err != nil {
 		return err
 	}
+	defer cacheDirFsObject.Close()
 
 	//File info object, I guess I needed this
-	cacheDirObject, _ := cacheDirFsObject.Readdir(0)
+	cacheDirObject, err := cacheDirFsObject.Readdir(0)
+	if err != nil {
+		return err
+	}
 	repoFolderNames := goutils.ListDirNames(cacheDirObject)
 
 	if repos == nil || len(repos) == 0 {
@@ -154,7 +186,7 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 			)
 			err = fs.RemoveAll(subfolderPath)
 			if err != nil {
-				log.Error(err)
+				failed(err)
 			}
 
 			absoluteRepoPath, _ := filepath.Abs(filepath.Join(cacheDirectory, repoFolder))
@@ -162,7 +194,7 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 			if dirIsEmpty {
 				err = fs.Remove(absoluteRepoPath)
 				if err != nil {
-					log.Error(err)
+					failed(err)
 				}
 			}
 
@@ -188,7 +220,7 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 
 					err = fs.RemoveAll(subfolderPath)
 					if err != nil {
-						log.Error(err)
+						failed(err)
 					}
 
 					absoluteRepoPath, _ := filepath.Abs(filepath.Join(cacheDirectory, repoFolder))
@@ -196,14 +228,14 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 					if dirIsEmpty {
 						err = fs.Remove(absoluteRepoPath)
 						if err != nil {
-							log.Error(err)
+							failed(err)
 						}
 					}
 				}
 			}
 		}
 	}
-	return err
+	return firstErr
 }
 
 func sliceToString(str []string) string {
-- 
2.43.0


From 8abd226060a37587894240e1d9fa1b567b785f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 18/50] fix: clean --all removes what it unpacks itself, and
 says so when it can't

Making the plan that finds the databases unpacked the tarballs again after
they had been removed.
---
 cmd/clean.go      |  5 +++--
 cmd/cleanPkgdb.go | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/clean.go b/cmd/clean.go
index 9ac98ff..d6b4cee 100644
--- a/cmd/clean.go
+++ b/cmd/clean.go
@@ -63,11 +63,12 @@ func clean(cmd *cobra.Command, args []string) error {
 	}
 	if cleanAll {
 		fmt.Println("Cleaning all.")
-		err = cleanCacheFolders()
+		// databases first, as this makes a plan, which unpacks the tarballs
+		err = cleanPackageDatabases("ALL")
 		if err != nil {
 			return err
 		}
-		err = cleanPackageDatabases("ALL")
+		err = cleanCacheFolders()
 		if err != nil {
 			return err
 		}
diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index 09a5124..bfc58ad 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -15,6 +15,7 @@
 package cmd
 
 import (
+	"os"
 	"strings"
 
 	"github.com/metrumresearchgroup/pkgr/configlib"
@@ -70,11 +71,13 @@ func cleanPackageDatabases(pkgdbs string) error {
 	}
 
 	totalPackageDbsProvided := len(pkgdbsToClear)
-	totalPackageDbsDeleted := removePackageDatabases(pkgdbsToClear, cfg)
+	err := removePackageDatabases(pkgdbsToClear, cfg)
+	if err != nil {
+		return err
+	}
 
 	log.WithFields(log.Fields{
 		"Packages specified": totalPackageDbsProvided,
-		"Packages removed":   totalPackageDbsDeleted,
 	}).Info("finished cleaning package dbs.")
 
 	return nil
@@ -95,8 +98,7 @@ func removePackageDatabases(pkgdbsToClear []string, cfg configlib.PkgrConfig) er
 				log.WithField("dbToClear", dbToClear).Trace("clearing pkgdb from cache")
 				filepathToRemove := repoDatabase.GetRepoDbCacheFilePath(rs.Version.ToFullString())
 				_, err = fs.Stat(filepathToRemove)
-				if err != nil {
-					lastErr = err
+				if os.IsNotExist(err) {
 					log.WithField("file", filepathToRemove).Warn("could not find file for removal")
 				} else {
 					log.Trace("attempting to remove " + filepathToRemove)
-- 
2.43.0


From e81ddc1e4114a3d80f2c97129bf61abedd9a98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 19/50] fix: edit the configuration file atomically

add and remove wrote it in place, so a full disk or a kill left part of it,
and remove emptied it when it could not be read.
---
 configlib/add_package.go | 19 ++++++++++++++++---
 configlib/config.go      |  9 ++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 75a816c..0a38e96 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -4,12 +4,14 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
-	"github.com/dpastoor/goutils"
+	"github.com/metrumresearchgroup/pkgr/internal/atomicfile"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/viper"
 	"github.com/thoas/go-funk"
 	"gopkg.in/yaml.v3"
+	"io"
+	"path/filepath"
 	"strings"
 )
 
@@ -42,10 +44,21 @@ func AddPackages(pkgs []string) error {
 		pkgsToInstall = append(pkgsToInstall, p)
 	}
 	newYml := insertPackages(lines, pkgsToInstall...)
-	err = goutils.WriteLines(newYml, ymlfile)
-	return err
+	return writeConfig(appFS, ymlfile, []byte(strings.Join(newYml, "\n")+"\n"))
 }
 
+// writeConfig replaces the config file by one with the given content
+func writeConfig(fs afero.Fs, ymlfile string, content []byte) error {
+	// if it is a link, it should stay one
+	path, err := filepath.EvalSymlinks(ymlfile)
+	if err != nil {
+		return err
+	}
+	return atomicfile.Write(fs, path, 0666, func(w io.Writer) error {
+		_, err := w.Write(content)
+		return err
+	})
+}
 
 // insert packages will look for Packages: and add packages beneth
 // if no Packages: line is found (eg if only tarballs/descriptions
diff --git a/configlib/config.go b/configlib/config.go
index 72a20fe..1e285e4 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -248,8 +248,7 @@ func RemovePackage(name string) error {
 // remove remove a package from the Package section of the yml config file
 func remove(ymlfile string, packageName string) error {
 	appFS := afero.NewOsFs()
-	yf, _ := afero.ReadFile(appFS, ymlfile)
-	fi, err := os.Stat(ymlfile)
+	yf, err := afero.ReadFile(appFS, ymlfile)
 	if err != nil {
 		return err
 	}
@@ -270,11 +269,7 @@ func remove(ymlfile string, packageName string) error {
 			out = append(out, []byte("\n")...)
 		}
 	}
-	err = afero.WriteFile(appFS, ymlfile, out, fi.Mode())
-	if err != nil {
-		return err
-	}
-	return nil
+	return writeConfig(appFS, ymlfile, out)
 }
 
 // SetCustomizations ... set ENV values in Rsettings
-- 
2.43.0


From c032c84f8f02b45c14a4ecfb3aae5ac7b8003dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 20/50] fix: remove only the named packages from the
 configuration

remove dropped every list item that begins with the name: other packages,
and tarballs, repositories and so on with such a name. Several packages
are removed in one step.
---
 cmd/remove.go       |  8 +++----
 configlib/config.go | 55 ++++++++++++++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/cmd/remove.go b/cmd/remove.go
index c8c25c8..e1e19f2 100644
--- a/cmd/remove.go
+++ b/cmd/remove.go
@@ -48,11 +48,9 @@ func rRemove(ccmd *cobra.Command, args []string) error {
 		os.Exit(0)
 	}
 
-	for _, arg := range args {
-		err := configlib.RemovePackage(arg)
-		if err != nil {
-			log.Fatalf("%s", err)
-		}
+	err := configlib.RemovePackage(args...)
+	if err != nil {
+		log.Fatalf("%s", err)
 	}
 
 	log.Info("duration:", time.Since(startTime))
diff --git a/configlib/config.go b/configlib/config.go
index 1e285e4..ee6a1ff 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -15,6 +15,8 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/viper"
+	"github.com/thoas/go-funk"
+	"gopkg.in/yaml.v3"
 
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
@@ -235,33 +237,36 @@ func IsCustomizationSet(key string, elems []interface{}, elem string) bool {
 	return false
 }
 
-// RemovePackage remove a package from the Package section of the yml config file
-func RemovePackage(name string) error {
+// RemovePackage removes packages from the Package section of the yml config file
+func RemovePackage(names ...string) error {
 	cfgname := viper.ConfigFileUsed()
-	err := remove(cfgname, name)
+	err := remove(cfgname, names...)
 	if err != nil {
 		return err
 	}
 	return nil
 }
 
-// remove remove a package from the Package section of the yml config file
-func remove(ymlfile string, packageName string) error {
+// remove removes packages from the Package section of the yml config file
+func remove(ymlfile string, packageNames ...string) error {
 	appFS := afero.NewOsFs()
 	yf, err := afero.ReadFile(appFS, ymlfile)
 	if err != nil {
 		return err
 	}
+	drop, err := packageLines(yf, packageNames)
+	if err != nil {
+		return err
+	}
+	if len(drop) == 0 {
+		return nil
+	}
 	var out []byte
 	i := 0
 	lines := bytes.Split(yf, []byte("\n"))
 	for _, line := range lines {
 		i++
-		// trim the line to detect the start of the list of packages
-		// but do not write the trimmed string as it may cause an
-		// unneeded file diff to the yml file
-		sline := bytes.TrimLeft(line, " ")
-		if bytes.HasPrefix(sline, []byte("- "+packageName)) {
+		if drop[i] {
 			continue
 		}
 		out = append(out, line...)
@@ -272,6 +277,36 @@ func remove(ymlfile string, packageName string) error {
 	return writeConfig(appFS, ymlfile, out)
 }
 
+// packageLines returns the numbers of the lines, counted from 1, on which the Packages section
+// lists one of the packages.
+func packageLines(yml []byte, packageNames []string) (map[int]bool, error) {
+	var doc yaml.Node
+	if err := yaml.Unmarshal(yml, &doc); err != nil {
+		return nil, err
+	}
+	text := bytes.Split(yml, []byte("\n"))
+	lines := make(map[int]bool)
+	if len(doc.Content) == 0 {
+		return lines, nil
+	}
+	top := doc.Content[0].Content
+	for i := 0; i+1 < len(top); i += 2 {
+		if top[i].Value != "Packages" {
+			continue
+		}
+		for _, item := range top[i+1].Content {
+			if !funk.ContainsString(packageNames, item.Value) {
+				continue
+			}
+			if !bytes.HasPrefix(bytes.TrimLeft(text[item.Line-1], " "), []byte("-")) {
+				return nil, fmt.Errorf("can't remove <%s>: the packages are not listed on lines of their own", item.Value)
+			}
+			lines[item.Line] = true
+		}
+	}
+	return lines, nil
+}
+
 // SetCustomizations ... set ENV values in Rsettings
 func SetCustomizations(rSettings rcmd.RSettings, cfg PkgrConfig) rcmd.RSettings {
 	pkgCustomizationsSlice := cfg.Customizations.Packages
-- 
2.43.0


From 3a3cbc4e30e42698ff997d7286a7455ee1eba4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 21/50] fix: add packages to an empty list

It was a panic, as was a list in brackets, and a package given twice was
added twice.
---
 configlib/add_package.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 0a38e96..b73f5a4 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -41,10 +41,21 @@ func AddPackages(pkgs []string) error {
 			log.Debug(fmt.Sprintf("Package <%s> already found in <%s>", p, ymlfile))
 			continue
 		}
+		if funk.ContainsString(pkgsToInstall, p) {
+			continue
+		}
 		pkgsToInstall = append(pkgsToInstall, p)
 	}
-	newYml := insertPackages(lines, pkgsToInstall...)
-	return writeConfig(appFS, ymlfile, []byte(strings.Join(newYml, "\n")+"\n"))
+	if len(pkgsToInstall) == 0 {
+		return nil
+	}
+	newYml := []byte(strings.Join(insertPackages(lines, pkgsToInstall...), "\n") + "\n")
+	var newPc PkgrConfig
+	err = yaml.Unmarshal(newYml, &newPc)
+	if err != nil || len(newPc.Packages) != len(pc.Packages)+len(pkgsToInstall) {
+		return fmt.Errorf("can't add packages to %s: they are not listed on lines of their own", ymlfile)
+	}
+	return writeConfig(appFS, ymlfile, newYml)
 }
 
 // writeConfig replaces the config file by one with the given content
@@ -101,7 +112,10 @@ func insertPackages(lines []string, pkgs ...string) []string {
 				break
 			}
 		}
-		numPadding := strings.Index(lines[packageStartIndex+firstPackageIndex], "-")
+		numPadding := 0
+		if firstPackageIndex > 0 {
+			numPadding = strings.Index(lines[packageStartIndex+firstPackageIndex], "-")
+		}
 
 		padding := strings.Repeat(" ", numPadding)
 		for _, pkg := range pkgs {
-- 
2.43.0


From 21d0e3e4b0e024538766fc07b5ff8a34d31eae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 22/50] fix: accept a relative --config in another directory

pkgr changes to the directory of the configuration file, after which add
and remove looked for the file, and load for its directory, at the relative
path from there.
---
 cmd/root.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index d28905d..ee8df79 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"fmt"
+	"github.com/mitchellh/go-homedir"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/cobra"
@@ -127,7 +128,14 @@ func initConfig() {
 	}
 
 	log.Trace("attempting to load config file")
-	configlib.NewConfig(viper.GetString("config"), &cfg)
+	configPath := viper.GetString("config")
+	if configPath != "" {
+		// the working directory changes below
+		configPath, _ = homedir.Expand(configPath)
+		configPath, _ = filepath.Abs(configPath)
+		viper.Set("config", configPath)
+	}
+	configlib.NewConfig(configPath, &cfg)
 
 	if update {
 		cfg.NoUpdate = false
-- 
2.43.0


From 590d4559bf573dbd14c0a8f94c69ce5480da72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 23/50] fix: cap the default number of threads at 8

The default configuration set it to the number of CPUs, as if the user had
asked for that many.
---
 configlib/config.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index ee6a1ff..28542d6 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
-	"runtime"
 	"strings"
 
 	homedir "github.com/mitchellh/go-homedir"
@@ -217,8 +216,8 @@ func loadDefaultSettings() {
 	viper.SetDefault("loglevel", "info")
 	// path to R on system, defaults to R in path
 	viper.SetDefault("rpath", "R")
-	// setting this to GOMAXPROCS(0) because NumCPU() won't work well with the scheduler.
-	viper.SetDefault("threads", runtime.GOMAXPROCS(0))
+	// 0 stands for a number that depends on the machine
+	viper.SetDefault("threads", 0)
 }
 
 // IsCustomizationSet ...
-- 
2.43.0


From d9883dd7b8d8ffab7088a9d159f50b0fea9c9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 24/50] fix: load packages with the default number of threads

Without a positive number of threads load waited forever, or panicked.
---
 cmd/load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/load.go b/cmd/load.go
index d57d5e7..0dc95de 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -57,7 +57,7 @@ loaded from the expected library.`,
 			}).Fatal("error getting absolute Path for R directory")
 		}
 
-		load(cfg.Packages, rs, rDir, cfg.Threads, all, json)
+		load(cfg.Packages, rs, rDir, getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)), all, json)
 	},
 }
 
-- 
2.43.0


From fb642046ce5a3ab6be79c2c0a64966fd13b4a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 25/50] fix: load every package once

With --all, packages that others depend on were loaded and counted as
failures several times.
---
 cmd/load.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/load.go b/cmd/load.go
index 0dc95de..9557847 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -8,6 +8,7 @@ import (
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	"github.com/metrumresearchgroup/pkgr/rcmd/rp"
 	"github.com/spf13/viper"
+	"github.com/thoas/go-funk"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -95,6 +96,8 @@ func load(userPackages []string, rs rcmd.RSettings, rDir string, threads int, al
 	} else {
 		toLoad = userPackages
 	}
+	// a package may be both a starting package and a dependency, or be listed twice
+	toLoad = funk.UniqString(toLoad)
 
 	report := InitLoadReport(getRSessionMetadata(rs, rDir))
 
-- 
2.43.0


From 9839bddc13bc15f535285094e6c8b79e2abd2840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 26/50] fix: report backups that could not be deleted

---
 rollback/operations.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/rollback/operations.go b/rollback/operations.go
index f93abf3..5e7820e 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -76,18 +76,14 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 
 	for _, info := range packageBackupInfo {
 
-		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
-		//_, err1 := fileSystem.Stat(info.BackupPackageDirectory) // Checking existence
-		if backupExists {
-			err1 := removePackage(fileSystem, info.BackupPackageDirectory)
-			if err1 != nil {
-				logrus.WithFields(logrus.Fields{
-					"package":           info.Package,
-					"problem_directory": info.BackupPackageDirectory,
-				}).Warn("could not delete directory during cleanup")
-				if firstErr == nil {
-					firstErr = err1
-				}
+		err1 := removePackage(fileSystem, info.BackupPackageDirectory)
+		if err1 != nil {
+			logrus.WithFields(logrus.Fields{
+				"package":           info.Package,
+				"problem_directory": info.BackupPackageDirectory,
+			}).Warn("could not delete directory during cleanup")
+			if firstErr == nil {
+				firstErr = err1
 			}
 		}
 	}
-- 
2.43.0


From 843068598c667aed7d1bd12317179c26c0ef6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 27/50] fix: roll back when a package can't be installed for
 lack of temporary space

---
 cmd/install.go  | 10 +++++++++-
 rcmd/install.go | 19 ++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index fc3eb03..b313d77 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -95,6 +95,14 @@ func rInstall(cmd *cobra.Command, args []string) error {
 		log.Fatalf("error downloading packages: %s", err)
 	}
 
+	libraryAbs, err := filepath.Abs(cfg.Library)
+	if err != nil {
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+			"error":   err,
+		}).Fatal("could not find absolute path for library")
+	}
+
 	// Only touch the library once everything that is going to be installed is at hand.
 	if installPlan.CreateLibrary {
 		err := fs.MkdirAll(cfg.Library, 0755)
@@ -127,7 +135,7 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
-	pkgInstallArgs.Library, _ = filepath.Abs(cfg.Library)
+	pkgInstallArgs.Library = libraryAbs
 
 	// Get the number of workers.
 	// Use number of user defined threads if set. Otherwise, use the
diff --git a/rcmd/install.go b/rcmd/install.go
index b66a78a..2cb399e 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -278,7 +278,13 @@ func InstallThroughBinary(
 	fs afero.Fs,
 	ir InstallRequest,
 	pc PackageCache) (CmdResult, string, error) {
-	exists, _ := goutils.DirExists(fs, filepath.Join(ir.InstallArgs.Library, ir.Package))
+	exists, err := goutils.DirExists(fs, filepath.Join(ir.InstallArgs.Library, ir.Package))
+	if err != nil {
+		return CmdResult{
+			Stderr:   err.Error(),
+			ExitCode: defaultFailedCode,
+		}, "", err
+	}
 	if exists {
 		log.WithFields(log.Fields{
 			"package": ir.Package,
@@ -309,9 +315,16 @@ func InstallThroughBinary(
 		os.TempDir(),
 		randomString(12),
 	)
-	err := fs.MkdirAll(tmpdir, 0777)
+	err = fs.MkdirAll(tmpdir, 0777)
 	if err != nil {
-		log.Fatalf("could not make tmpdir at: %s to install package", tmpdir)
+		log.WithFields(log.Fields{
+			"err":     err,
+			"package": ir.Package,
+		}).Errorf("could not make tmpdir at: %s to install package", tmpdir)
+		return CmdResult{
+			Stderr:   err.Error(),
+			ExitCode: defaultFailedCode,
+		}, "", err
 	}
 	origDir := ir.ExecSettings.WorkDir
 	if origDir == "" {
-- 
2.43.0


From 0717a0ead579fb84a9d32771621fbbc290d9d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 28/50] fix: remove unpacked tarballs from the cache atomically

---
 cmd/cleanCache.go |  2 +-
 cmd/tarballOps.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index b7a4ea9..3199a2c 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -127,7 +127,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
+		err = removeUnpacked(fs, filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 9dff75c..3d949db 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -154,6 +154,19 @@ func extractTo(fs afero.Fs, path string, dir string) error {
 	return err
 }
 
+// removeUnpacked removes an unpacked tarball such that dir, if it exists, always holds all of it.
+func removeUnpacked(fs afero.Fs, dir string) error {
+	tmpDir := fmt.Sprintf("%s.%d.tmp", dir, os.Getpid())
+	err := fs.Rename(dir, tmpDir)
+	if os.IsNotExist(err) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	return fs.RemoveAll(tmpDir)
+}
+
 func getHashedTarballName(tgzFile afero.File) (string, error) {
 	hash := md5.New()
 	_, err := io.Copy(hash, tgzFile)
-- 
2.43.0


From a54539d2880e986df12c61c382ffc1b8c9eeab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 29/50] fix: keep the worker warning out of load --json

---
 cmd/load.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/load.go b/cmd/load.go
index 9557847..062d5a9 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -58,7 +58,7 @@ loaded from the expected library.`,
 			}).Fatal("error getting absolute Path for R directory")
 		}
 
-		load(cfg.Packages, rs, rDir, getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)), all, json)
+		load(cfg.Packages, rs, rDir, cfg.Threads, all, json)
 	},
 }
 
@@ -77,6 +77,7 @@ func load(userPackages []string, rs rcmd.RSettings, rDir string, threads int, al
 	if toJson {
 		logger.SetLogLevel("fatal") // disable logging
 	}
+	threads = getWorkerCount(threads, runtime.GOMAXPROCS(0))
 
 	log.WithFields(log.Fields{
 		"all_arg":  all,
-- 
2.43.0


From 3a51c559ab0d26a319c41c659a38180aef583e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 30/50] fix: install never ended when one package made
 thousands of others ready

---
 rcmd/install.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 2cb399e..60f89d9 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -449,7 +449,8 @@ func InstallPackagePlan(
 	// however if it may be concurrently accessed should consider a syncmap implementation
 	installedPkgs := make(map[string]bool)
 	// if packages ID'd as ready to install signal so can push them only the queue
-	shouldInstall := make(chan string)
+	// with room for all packages, as the update handler must never wait for the workers, which wait for it
+	shouldInstall := make(chan string, len(plan.DepDb)+len(plan.StartingPackages))
 	var anyFailed atomic.Bool // set from the update handler, checked from the goroutine below as well
 
 	packagesNeeded := plan.GetNumPackagesToInstall()
-- 
2.43.0


From bf8af17c34e54d849ebafd043374f344bc882ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 31/50] fix: plan announced updates of packages that install
 leaves alone

---
 gpsr/solution.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index 3816786..4951a5a 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -80,17 +80,26 @@ func ResolveInstallationReqs(
 		}
 	}
 
-	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(extractNamesFromDesc(preinstalledPkgs)).Packages)
-
 	installPlan := InstallPlan{
 		StartingPackages:  resolved[0],
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
-		OutdatedPackages:  outdatedPackages,
 		CreateLibrary:     !libraryExists,
 		Update:            update,
 	}
 	installPlan.Pack(pkgNexus)
+
+	// Other packages in the library are left alone, outdated or not.
+	requiredPreinstalledPkgs := make(map[string]desc.Desc)
+	for _, p := range installPlan.GetAllPackages() {
+		if installed, ok := preinstalledPkgs[p]; ok {
+			requiredPreinstalledPkgs[p] = installed
+		}
+	}
+	installPlan.OutdatedPackages = pacman.GetOutdatedPackages(
+		requiredPreinstalledPkgs,
+		pkgNexus.GetPackages(extractNamesFromDesc(requiredPreinstalledPkgs)).Packages,
+	)
 	return installPlan, nil
 }
 
-- 
2.43.0


From 7c9e9430ac657205844d2b1813fc83bc68cf2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 32/50] fix: plan counted a package twice when a tarball
 replaces it

---
 gpsr/dependencies.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index 0f1d113..eac4b92 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"github.com/metrumresearchgroup/pkgr/cran"
-	"github.com/thoas/go-funk"
 	"sort"
 
 	"github.com/deckarep/golang-set"
@@ -153,25 +152,26 @@ func (ip *InstallPlan) GetAllPackages() []string {
 }
 
 func (ip *InstallPlan) GetNumPackagesToInstall() int {
-	requiredPackages := ip.GetAllPackages()
+	toInstall := make(map[string]bool)
 
-	// Handle the case where packages not requested via pkgr.yml (or dependencies) are present in directory.
-	installedRequired := 0
-	for p := range ip.InstalledPackages {
-
-		// AdditionalPackageSources are always installed, even if they're already present.
-		_, isAdditionalPkgInstallation := ip.AdditionalPackageSources[p]
-
-		if funk.Contains(requiredPackages, p) && !isAdditionalPkgInstallation {
-			installedRequired = installedRequired + 1
+	// Packages that are neither requested via pkgr.yml nor dependencies may be present in the library as well.
+	for _, p := range ip.GetAllPackages() {
+		if _, installed := ip.InstalledPackages[p]; !installed {
+			toInstall[p] = true
 		}
 	}
-	toUpdate := 0
-	// Everything in OutdatedPackages should be required, otherwise pkgr wouldn't have checked for an updated version.
+
+	// AdditionalPackageSources are always installed, even if they're already present.
+	for p := range ip.AdditionalPackageSources {
+		toInstall[p] = true
+	}
+
 	if ip.Update {
-		toUpdate = len(ip.OutdatedPackages)
+		for _, p := range ip.OutdatedPackages {
+			toInstall[p.Package] = true
+		}
 	}
 
-	return len(requiredPackages) - installedRequired + toUpdate
+	return len(toInstall)
 
 }
-- 
2.43.0


From 5197adfa0e21d8517ce6c9cb5c97daebf5723ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 33/50] fix: plan and install panicked when there is nothing to
 resolve

---
 gpsr/solution.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index 4951a5a..484d6a0 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -80,8 +80,14 @@ func ResolveInstallationReqs(
 		}
 	}
 
+	// without any packages there are no layers
+	var startingPackages []string
+	if len(resolved) > 0 {
+		startingPackages = resolved[0]
+	}
+
 	installPlan := InstallPlan{
-		StartingPackages:  resolved[0],
+		StartingPackages:  startingPackages,
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
 		CreateLibrary:     !libraryExists,
-- 
2.43.0


From b2c5048075ebf6cc4ecc33e8d7633e8b0018c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 34/50] fix: keep warnings about the index cache out of
 inspect's JSON

---
 cran/repodb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 7ebce97..4a1d488 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -57,7 +57,7 @@ func NewRepoDb(url RepoURL, dst SourceType, rc RepoConfig, rv RVersion, noSecure
 func (repoDb *RepoDb) Decode(file string) error {
 	f, err := os.Open(file)
 	if err != nil {
-		fmt.Println("problem opening crandb", file)
+		log.Warnln("problem opening crandb", file)
 		return err
 	}
 	defer f.Close()
@@ -150,7 +150,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 		err := os.Remove(pkgdbFile)
 		if err != nil {
-			fmt.Println("error removing cache ", pkgdbFile, err)
+			log.Warnln("error removing cache ", pkgdbFile, err)
 		}
 	}
 
-- 
2.43.0


From b93badd2049511987a442d9c58d49c193764adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 35/50] fix: pkgr add dropped what follows a long line, and
 mixed line ends

---
 configlib/add_package.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index b73f5a4..b0a05ac 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -1,7 +1,6 @@
 package configlib
 
 import (
-	"bufio"
 	"bytes"
 	"fmt"
 	"github.com/metrumresearchgroup/pkgr/internal/atomicfile"
@@ -24,10 +23,10 @@ func AddPackages(pkgs []string) error {
 	if err != nil {
 		return err
 	}
-	var lines []string
-	scanner := bufio.NewScanner(bytes.NewReader(yf))
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	lines := strings.Split(strings.TrimSuffix(string(yf), "\n"), "\n")
+	lineEnd := ""
+	if bytes.Contains(yf, []byte("\r\n")) {
+		lineEnd = "\r"
 	}
 
 	var pc PkgrConfig
@@ -49,7 +48,11 @@ func AddPackages(pkgs []string) error {
 	if len(pkgsToInstall) == 0 {
 		return nil
 	}
-	newYml := []byte(strings.Join(insertPackages(lines, pkgsToInstall...), "\n") + "\n")
+	var names []string
+	for _, p := range pkgsToInstall {
+		names = append(names, p+lineEnd)
+	}
+	newYml := []byte(strings.Join(insertPackages(lines, names...), "\n") + "\n")
 	var newPc PkgrConfig
 	err = yaml.Unmarshal(newYml, &newPc)
 	if err != nil || len(newPc.Packages) != len(pc.Packages)+len(pkgsToInstall) {
-- 
2.43.0


From d4088d495de1dbfb84cecec2a7adaaa04152aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 36/50] fix: annotating a DESCRIPTION lost or cut lines, or
 failed on long ones

---
 rcmd/install.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 60f89d9..0695a4d 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -614,6 +614,7 @@ func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL,
 	}
 	var descriptionLines []string
 	scanner := bufio.NewScanner(bytes.NewReader(description))
+	scanner.Buffer(nil, len(description)+1) // lines can be long
 	for scanner.Scan() {
 		descriptionLines = append(descriptionLines, scanner.Text())
 	}
@@ -656,14 +657,14 @@ func updateDescriptionInfoByLines(lines []string, version, installType, repoURL,
 		//log.Info("Starting repo: " + repo)
 
 		// Don't add these lines to final set, if they exist. This way, we can add/"overwrite" them at the end.
-		if strings.Contains(line, "PkgrVersion:") ||
-			strings.Contains(line, "PkgrInstallType:") ||
-			strings.Contains(line, "PkgrRepositoryURL") {
+		if strings.HasPrefix(line, "PkgrVersion:") ||
+			strings.HasPrefix(line, "PkgrInstallType:") ||
+			strings.HasPrefix(line, "PkgrRepositoryURL:") {
 			continue
 		}
 
 		if strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+ repo) {
-			originalRepo := strings.Trim(strings.Split(line, ":")[1], " ")
+			originalRepo := strings.Trim(strings.SplitN(line, ":", 2)[1], " ")
 			newLines = append(newLines, "OriginalRepository: "+originalRepo)
 			line = "Repository: " + repo
 		}
-- 
2.43.0


From 208c5c67d075b2e6f67de33a2740969a8a98a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 37/50] fix: what tarballs and DESCRIPTION files depend on was
 not installed

---
 desc/structs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/desc/structs.go b/desc/structs.go
index 01806d7..797f5ff 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -81,6 +81,11 @@ type Desc struct {
 func (d *Desc) GetCombinedDependencies(suggests bool) map[string]Dep {
 	combined := map[string]Dep{}
 
+	for key, value := range d.Depends {
+		if key != "R" {
+			combined[key] = value
+		}
+	}
 	for key, value := range d.Imports {
 		combined[key] = value
 	}
-- 
2.43.0


From dde400b35bcf880f6a5e49e17efffe6f4b3934ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 38/50] fix: the last parts of version numbers with five parts
 were ignored

The string was split in at most four pieces, so 1.2.3.4.5 had 0 in place of
its last two components and an available update was taken for a downgrade.
A version with a single component, as in R (>= 4), ended in a panic.
---
 desc/version.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index 84dda6c..09c94f4 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -8,9 +8,11 @@ import (
 // ParseVersion parses a package string to a version
 func ParseVersion(v string) Version {
 	ver := Version{String: v}
-	parts := regexp.MustCompile(`[\.-]`).Split(v, 4)
+	parts := regexp.MustCompile(`[\.-]`).Split(v, 5)
 	ver.Major, _ = strconv.Atoi(parts[0])
-	ver.Minor, _ = strconv.Atoi(parts[1])
+	if len(parts) > 1 {
+		ver.Minor, _ = strconv.Atoi(parts[1])
+	}
 	if len(parts) > 2 {
 		ver.Patch, _ = strconv.Atoi(parts[2])
 	}
-- 
2.43.0


From 666458379d1e40c0ce83c923227360709e4f0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 39/50] fix: constraints on R with !=, in two parts or without
 a version

A repository entry that depends on R without naming a version was never
available, != in a PACKAGES file ended in a panic, and of two bounds on R in
one Depends field only the last one counted.
---
 cran/repodb.go  | 8 ++++++++
 desc/desc.go    | 7 +++++++
 desc/structs.go | 5 +++++
 3 files changed, 20 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 4a1d488..0db4cdf 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -291,6 +291,9 @@ func isRVersionCompatible(pkgDesc desc.Desc, rVersion RVersion) (desc.Dep, bool)
 	if present {
 		packageValid = checkRVersionCompatibility(rVersion, pkgRConstraint)
 	}
+	for _, further := range pkgDesc.FurtherR {
+		packageValid = packageValid && checkRVersionCompatibility(rVersion, further)
+	}
 	return pkgRConstraint, packageValid
 }
 
@@ -306,6 +309,9 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 	// v2 for R >= 3.5
 	packageValid := false
 	switch pkgRConstraint.Constraint {
+	case desc.None:
+		// any version of R will do
+		packageValid = true
 	case desc.GT:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) > 0
 	case desc.GTE:
@@ -316,6 +322,8 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) <= 0
 	case desc.Equals:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) == 0
+	case desc.NotEquals:
+		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) != 0
 	default:
 		break
 	}
diff --git a/desc/desc.go b/desc/desc.go
index 7203ead..eeedd20 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -25,6 +25,9 @@ func ParseDep(d string) Dep {
 		if strings.Contains(pv, "==") {
 			dep.Constraint = Equals
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "==", "", 1)))
+		} else if strings.Contains(pv, "!=") {
+			dep.Constraint = NotEquals
+			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "!=", "", 1)))
 		} else if strings.Contains(pv, ">=") {
 			dep.Constraint = GTE
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, ">=", " ", 1)))
@@ -86,6 +89,10 @@ func NewDesc(d desc) Desc {
 	if len(d.Depends) > 0 {
 		for _, dp := range d.Depends {
 			dep := ParseDep(dp)
+			if other, ok := dsc.Depends[dep.Name]; ok && dep.Name == "R" {
+				// bounds on both sides
+				dsc.FurtherR = append(dsc.FurtherR, other)
+			}
 			dsc.Depends[dep.Name] = dep
 		}
 	}
diff --git a/desc/structs.go b/desc/structs.go
index 797f5ff..2696f88 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -15,6 +15,8 @@ func (c Constraint) ToString() string {
 		return "<="
 	case Equals:
 		return "=="
+	case NotEquals:
+		return "!="
 	default:
 		return "Unknown constraint"
 	}
@@ -29,6 +31,7 @@ const (
 	Equals
 	LTE
 	LT
+	NotEquals
 )
 
 // Version represents a package version
@@ -72,6 +75,8 @@ type Desc struct {
 	Imports            map[string]Dep
 	Suggests           map[string]Dep
 	Depends            map[string]Dep
+	// FurtherR has the constraints on R besides the one in Depends
+	FurtherR           []Dep
 	LinkingTo          map[string]Dep
 	PkgrVersion        string
 	PkgrInstallType    string
-- 
2.43.0


From 331fe1aaf096317ecaab2a332735f200172e5afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 40/50] fix: a comma at the end of a dependency field made a
 package named ""

It is missing from every repository, so that installing failed when a tarball
or a DESCRIPTION file was written that way.
---
 desc/desc.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/desc/desc.go b/desc/desc.go
index eeedd20..22e5803 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -76,12 +76,20 @@ func NewDesc(d desc) Desc {
 	if len(d.Imports) > 0 {
 		for _, dp := range d.Imports {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// after a comma at the end of the field
+				continue
+			}
 			dsc.Imports[dep.Name] = dep
 		}
 	}
 	if len(d.Suggests) > 0 {
 		for _, dp := range d.Suggests {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// after a comma at the end of the field
+				continue
+			}
 			dsc.Suggests[dep.Name] = dep
 		}
 
@@ -89,6 +97,10 @@ func NewDesc(d desc) Desc {
 	if len(d.Depends) > 0 {
 		for _, dp := range d.Depends {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// after a comma at the end of the field
+				continue
+			}
 			if other, ok := dsc.Depends[dep.Name]; ok && dep.Name == "R" {
 				// bounds on both sides
 				dsc.FurtherR = append(dsc.FurtherR, other)
@@ -99,6 +111,10 @@ func NewDesc(d desc) Desc {
 	if len(d.LinkingTo) > 0 {
 		for _, dp := range d.LinkingTo {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// after a comma at the end of the field
+				continue
+			}
 			dsc.LinkingTo[dep.Name] = dep
 		}
 	}
-- 
2.43.0


From bd262d3ba227be52b1a518419dfa525dbe1ac220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:47 +0000
Subject: [PATCH 41/50] fix: a package pinned to a repository was not of that
 repository's type

The type customized for a repository did not apply to packages that are
customized to come from it, unless they had a type of their own.
---
 cran/pkg_nexus.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cran/pkg_nexus.go b/cran/pkg_nexus.go
index c235fa4..c38e898 100644
--- a/cran/pkg_nexus.go
+++ b/cran/pkg_nexus.go
@@ -128,12 +128,14 @@ func isCorrectRepo(pkg string, r RepoURL, cfg map[string]PkgConfig) bool {
 func (pkgNexus *PkgNexus) GetPackage(pkg string) (desc.Desc, PkgConfig, bool) {
 	cfg, exists := pkgNexus.Config.Packages[pkg]
 	st := pkgNexus.DefaultSourceType
-	if exists && cfg.Type != Default {
+	// a customization may be about the repository only
+	typed := exists && cfg.Type != Default
+	if typed {
 		st = cfg.Type
 	}
 	for _, db := range pkgNexus.Db {
 		rst := st
-		if db.DefaultSourceType != rst && !exists && db.DefaultSourceType != Default {
+		if db.DefaultSourceType != rst && !typed && db.DefaultSourceType != Default {
 			rst = db.DefaultSourceType
 		}
 		// For now package existence is checked exactly as the package is specified
-- 
2.43.0


From a57095ebf1e4f129074d62e7ef4c9f019f4bbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 42/50] fix: a repository was used without the packages of an
 index that failed

With an index of sources and one of binaries, any failure of one of them (an
error of the server, a connection that breaks off) was treated as if the
repository had no such index, and the rest was cached for an hour.
---
 cran/repodb.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 0db4cdf..852f398 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -158,6 +158,8 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		St                    SourceType
 		AvailableDescriptions map[string]desc.Desc
 		Err                   error
+		// Absent tells that the repository does not have such an index
+		Absent bool
 	}
 
 	client := &http.Client{}
@@ -188,6 +190,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 					downloadChannel <- downloadDatabase{
 						St:                    st,
 						AvailableDescriptions: descriptionMap,
+						Absent:                isAbsent(res.StatusCode),
 						Err:                   fmt.Errorf("failed fetching PACKAGES file from %s, with status %s", pkgURL, res.Status)}
 					return
 				}
@@ -210,11 +213,12 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				pkgdir, _ = filepath.Abs(pkgdir)
 				var err error
 				body, err = ioutil.ReadFile(pkgdir)
-				if os.IsNotExist(err) {
+				absent := os.IsNotExist(err)
+				if absent {
 					err = fmt.Errorf("no package file found at: %s", pkgdir)
 				}
 				if err != nil {
-					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
+					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err, Absent: absent}
 					return
 				}
 			}
@@ -264,20 +268,27 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 
 	}
 	errorCount := 0
-	var lasterr error
+	var lasterr, failure error
 	for i := 0; i < len(repoDb.DescriptionsBySourceType); i++ {
 		result := <-downloadChannel
 		if result.Err != nil {
 			log.Warnf("error downloading repo %s, type: %s, with information: %s\n", repoDb.Repo.Name, result.St, result.Err)
 			errorCount++
 			lasterr = result.Err
+			if !result.Absent {
+				failure = result.Err
+			}
 			// if one repo fails should return the error and not continue
 			// as don't want a partial repodb as it might cause improperly pulled packages
 		} else {
 			repoDb.DescriptionsBySourceType[result.St] = result.AvailableDescriptions
 		}
 	}
-	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
+	// if only one source isn't present - eg if have binary/source but only source available - the other one will do,
+	// but any other failure would leave out packages that the repository has
+	if failure != nil {
+		return failure
+	}
 	if errorCount == len(repoDb.DescriptionsBySourceType) {
 		return lasterr
 	}
@@ -285,6 +296,12 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 	return repoDb.Encode(pkgdbFile)
 }
 
+// isAbsent tells from a response whether there is no such file. Some servers
+// answer with 403 if they don't list their files.
+func isAbsent(status int) bool {
+	return status == http.StatusNotFound || status == http.StatusGone || status == http.StatusForbidden
+}
+
 func isRVersionCompatible(pkgDesc desc.Desc, rVersion RVersion) (desc.Dep, bool) {
 	pkgRConstraint, present := pkgDesc.Depends["R"]
 	packageValid := true
-- 
2.43.0


From 3badcdbdb0f5d054b70cd9c285c69e1dbdc1b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 43/50] fix: binaries of another RepoSuffix were taken from the
 package cache

The directory of a repository in the package cache depends on its name and URL
only, but the suffix tells which binaries of the repository are wanted.
---
 cran/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cran/utils.go b/cran/utils.go
index a9cc0d2..3f6f569 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -162,6 +162,10 @@ func RepoURLHash(r RepoURL) string {
 	h := md5.New()
 	// don't hash everything as still want a reasonable identifier
 	io.WriteString(h, r.URL)
+	if r.Suffix != "" {
+		// binaries come from a different place
+		io.WriteString(h, " "+r.Suffix)
+	}
 	urlHash := fmt.Sprintf("%x", h.Sum(nil))
 	return r.Name + "-" + urlHash[:12]
 }
-- 
2.43.0


From f2ae214faefbbb4f91d5905e39c19289d1dfe304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 44/50] fix: a tilde in RPath was not expanded for finding the
 library

---
 configlib/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index 28542d6..0b185c3 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -45,6 +45,9 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 		log.Fatalf("error parsing pkgr.yml: %s\n", err)
 	}
 
+	// R may be needed to find the library
+	cfg.RPath = expandTilde(cfg.RPath)
+
 	if len(cfg.Library) == 0 {
 		rs := rcmd.NewRSettings(cfg.RPath)
 		rVersion := rcmd.GetRVersion(&rs)
@@ -53,7 +56,6 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 
 	// For all cfg	values that can be repos, make sure that ~ is expanded to the home directory.
 	cfg.Library = expandTilde(cfg.Library)
-	cfg.RPath = expandTilde(cfg.RPath)
 	cfg.Tarballs = expandTildes(cfg.Tarballs)
 	cfg.Descriptions = expandTildes(cfg.Descriptions)
 	cfg.Repos = expandTildesRepos(cfg.Repos)
-- 
2.43.0


From 79eb1bfe156546d4d6918a2d0cec25d4da7b2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 45/50] fix: renv was asked for its library outside the
 project's directory

---
 cmd/root.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index ee8df79..b16f144 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -134,18 +134,17 @@ func initConfig() {
 		configPath, _ = homedir.Expand(configPath)
 		configPath, _ = filepath.Abs(configPath)
 		viper.Set("config", configPath)
+		// R may be asked for the project's library while reading the config
+		cwd, _ := os.Getwd()
+		log.WithFields(log.Fields{
+			"cwd": cwd,
+			"nwd": filepath.Dir(configPath),
+		}).Trace("setting directory to configuration file")
+		_ = os.Chdir(filepath.Dir(configPath))
 	}
 	configlib.NewConfig(configPath, &cfg)
 
 	if update {
 		cfg.NoUpdate = false
 	}
-	configFilePath, _ := filepath.Abs(viper.ConfigFileUsed())
-	cwd, _ := os.Getwd()
-	log.WithFields(log.Fields{
-		"cwd": cwd,
-		"nwd": filepath.Dir(configFilePath),
-	}).Trace("setting directory to configuration file")
-	_ = os.Chdir(filepath.Dir(configFilePath))
-
 }
-- 
2.43.0


From 7b40fe6b5c4a589720cbb25e7e67a4216f2d7e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 46/50] fix: the user's R_LIBS came before the configured
 library

---
 rcmd/configure.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index 4a73e6b..11a8268 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -46,6 +46,11 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			// not be representative of the hierarchy specified
 			// in Library/Libpaths in the pkgr configuration
 			// we only want R_LIBS_SITE set to control all relevant library paths for the user to
+			// R_LIBS takes precedence over both
+			if evs[0] == "R_LIBS" && (pkg != "" || len(rs.LibPaths) > 0) {
+				log.WithField("path", evs[1]).Debug("overriding system R_LIBS")
+				continue
+			}
 			if evs[0] == "R_LIBS_USER" {
 				log.WithField("path", evs[1]).Debug("overriding system R_LIBS_USER")
 				continue
-- 
2.43.0


From 907762f1b1e1c60a22a796a16d355b9cd820b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 47/50] fix: plan, load, run and clean did not write the log
 file, add --install wrote it twice

---
 cmd/cleanCache.go | 2 ++
 cmd/cleanPkgdb.go | 2 ++
 cmd/load.go       | 1 +
 cmd/plan.go       | 2 ++
 cmd/run.go        | 2 ++
 logger/logger.go  | 7 ++++++-
 6 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 3199a2c..20ce2a4 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -24,6 +24,7 @@ import (
 	"github.com/spf13/afero"
 
 	"github.com/dpastoor/goutils"
+	"github.com/metrumresearchgroup/pkgr/logger"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
 )
@@ -62,6 +63,7 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	return cleanCacheFolders()
 }
 
diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index bfc58ad..ecd8f60 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -19,6 +19,7 @@ import (
 	"strings"
 
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/logger"
 
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	log "github.com/sirupsen/logrus"
@@ -49,6 +50,7 @@ func init() {
 // Using a "middle man" function here allows us to call the cleanPackageDatabases function from the "clean"
 // command when "pkgr clean --all" is run. Without the middle man, passing in arguments becomes strange.
 func executeCommand(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	return cleanPackageDatabases(pkgdbsToClearArgument)
 }
 
diff --git a/cmd/load.go b/cmd/load.go
index 062d5a9..db433e9 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -37,6 +37,7 @@ loaded from the expected library.`,
   # Load the above packages and all their dependencies
   pkgr load --json --all`,
 	Run: func(cmd *cobra.Command, args []string) {
+		logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 		all := viper.GetBool("all")
 		json := viper.GetBool("json")
 
diff --git a/cmd/plan.go b/cmd/plan.go
index 31cc7bb..dd5d5e6 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -42,6 +42,7 @@ import (
 	"github.com/metrumresearchgroup/pkgr/configlib"
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
+	"github.com/metrumresearchgroup/pkgr/logger"
 )
 
 // planCmd shows the install plan
@@ -65,6 +66,7 @@ func init() {
 }
 
 func plan(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	log.Infof("Installation would launch %v workers\n", getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)))
 	rs := rcmd.NewRSettings(cfg.RPath)
 	rVersion := rcmd.GetRVersion(&rs)
diff --git a/cmd/run.go b/cmd/run.go
index af34d99..3deb5ef 100644
--- a/cmd/run.go
+++ b/cmd/run.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 
 	"github.com/spf13/cobra"
@@ -53,6 +54,7 @@ configuration file.
 
 func rRun(cmd *cobra.Command, args []string) error {
 
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	rs := rcmd.NewRSettings(cfg.RPath)
 	// installation through binary doesn't do this exactly, but its pretty close
 	// at least for experimentation for now. If necessary can refactor out the
diff --git a/logger/logger.go b/logger/logger.go
index da5e38a..7984a90 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -15,6 +15,9 @@ type LogrusFileHook struct {
 	formatter *log.JSONFormatter
 }
 
+// opened are the log files that have a hook already
+var opened = map[string]bool{}
+
 // Log Reinstantiable log to be used globally in the application.
 // var Log *log.Logger
 
@@ -102,7 +105,8 @@ func SetLogLevel(level string) {
 
 func AddLogFile(outputFile string, overwrite bool) {
 
-	if outputFile != "" {
+	// a second hook would write every record twice, or discard the first ones
+	if outputFile != "" && !opened[outputFile] {
 
 		var osFlag int
 
@@ -114,6 +118,7 @@ func AddLogFile(outputFile string, overwrite bool) {
 
 		fileHook, err := NewLogrusFileHook(outputFile, osFlag, 0666)
 		if err == nil {
+			opened[outputFile] = true
 			log.AddHook(fileHook)
 		}
 	}
-- 
2.43.0


From 8ac5998dc1d149b6a15d106ba49db3c677824503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 48/50] fix: tarball packages were installed in random order,
 also when one needs another

---
 cmd/install.go       |  4 +++-
 cmd/tarballOps.go    |  6 +++++-
 gpsr/dependencies.go | 29 +++++++++++++++++++++++++++++
 gpsr/structs.go      |  1 +
 4 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index b313d77..0dc9924 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -222,7 +222,9 @@ func installAdditionalPackages(installPlan gpsr.InstallPlan, rSettings rcmd.RSet
 
 	var errorAggregator []error
 
-	for pkgName, additionalPkg := range installPlan.AdditionalPackageSources {
+	// A tarball package may need another one.
+	for _, pkgName := range installPlan.AdditionalPackagesInOrder() {
+		additionalPkg := installPlan.AdditionalPackageSources[pkgName]
 
 		log.WithFields(log.Fields{
 			"package":    pkgName,
diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 3d949db..ef93378 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -42,7 +42,11 @@ func unpackTarballs(fs afero.Fs, tarballs []string, cache string) ([]desc.Desc,
 			}).Fatal("error parsing DESCRIPTION file for tarball package")
 		}
 		descriptions = append(descriptions, desc)
-		untarredMap[desc.Package] = gpsr.AdditionalPkg{InstallPath: untarredFolder, OriginPath: tarballPath, Type: "tarball"}
+		var deps []string
+		for dep := range desc.GetCombinedDependencies(false) {
+			deps = append(deps, dep)
+		}
+		untarredMap[desc.Package] = gpsr.AdditionalPkg{InstallPath: untarredFolder, OriginPath: tarballPath, Type: "tarball", Deps: deps}
 	}
 
 	return descriptions, untarredMap
diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index eac4b92..af8b73b 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -151,6 +151,35 @@ func (ip *InstallPlan) GetAllPackages() []string {
 	return toInstall
 }
 
+// AdditionalPackagesInOrder gives the names of the additional packages
+// such that each comes after those of them that it needs.
+func (ip *InstallPlan) AdditionalPackagesInOrder() []string {
+	var ordered []string
+	seen := make(map[string]bool)
+	var add func(pkg string)
+	add = func(pkg string) {
+		if seen[pkg] {
+			return
+		}
+		seen[pkg] = true
+		additionalPkg, ok := ip.AdditionalPackageSources[pkg]
+		deps := ip.DepDb[pkg]
+		if ok {
+			deps = additionalPkg.Deps
+		}
+		for _, dep := range deps {
+			add(dep)
+		}
+		if ok {
+			ordered = append(ordered, pkg)
+		}
+	}
+	for pkg := range ip.AdditionalPackageSources {
+		add(pkg)
+	}
+	return ordered
+}
+
 func (ip *InstallPlan) GetNumPackagesToInstall() int {
 	toInstall := make(map[string]bool)
 
diff --git a/gpsr/structs.go b/gpsr/structs.go
index ae4c550..cd1332b 100644
--- a/gpsr/structs.go
+++ b/gpsr/structs.go
@@ -21,6 +21,7 @@ type AdditionalPkg struct {
 	InstallPath string
 	OriginPath  string
 	Type        string
+	Deps        []string // Packages this one needs in order to be installed.
 }
 
 // PkgDeps contains which dependencies should be installed
-- 
2.43.0


From 55d65b3683176ec88f4e86a93632f14c3c98cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 49/50] fix: tarball packages were installed after another
 tarball package they need had failed

---
 cmd/install.go       | 15 +++++++++++++++
 gpsr/dependencies.go | 23 +++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/cmd/install.go b/cmd/install.go
index 0dc9924..c2a2c2a 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -221,11 +221,25 @@ func installAdditionalPackages(installPlan gpsr.InstallPlan, rSettings rcmd.RSet
 	log.Info("starting individual tarball install")
 
 	var errorAggregator []error
+	failedPkgs := make(map[string]bool)
 
 	// A tarball package may need another one.
 	for _, pkgName := range installPlan.AdditionalPackagesInOrder() {
 		additionalPkg := installPlan.AdditionalPackageSources[pkgName]
 
+		if installPlan.NeedsAny(pkgName, failedPkgs) {
+			err := errors.New("a package it needs could not be installed")
+			log.WithFields(log.Fields{
+				"pkg":    pkgName,
+				"source": additionalPkg.OriginPath,
+				"error":  err,
+			}).Error("error installing package")
+			errorAggregator = append(errorAggregator, err)
+			failedPkgs[pkgName] = true
+			toInstallCount--
+			continue
+		}
+
 		log.WithFields(log.Fields{
 			"package":    pkgName,
 			"pkg_source": additionalPkg.InstallPath,
@@ -296,6 +310,7 @@ func installAdditionalPackages(installPlan gpsr.InstallPlan, rSettings rcmd.RSet
 
 			log.WithFields(logFields).Error("error installing package")
 			errorAggregator = append(errorAggregator, err)
+			failedPkgs[pkgName] = true
 		} else {
 			logFields := log.Fields{
 				"pkg":          pkgName,
diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index af8b73b..5cfbbbe 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -180,6 +180,29 @@ func (ip *InstallPlan) AdditionalPackagesInOrder() []string {
 	return ordered
 }
 
+// NeedsAny says whether a package needs one of the others, itself or through packages it needs.
+func (ip *InstallPlan) NeedsAny(pkg string, others map[string]bool) bool {
+	seen := make(map[string]bool)
+	var needs func(pkg string) bool
+	needs = func(pkg string) bool {
+		if seen[pkg] {
+			return false
+		}
+		seen[pkg] = true
+		deps := ip.DepDb[pkg]
+		if additionalPkg, ok := ip.AdditionalPackageSources[pkg]; ok {
+			deps = additionalPkg.Deps
+		}
+		for _, dep := range deps {
+			if others[dep] || needs(dep) {
+				return true
+			}
+		}
+		return false
+	}
+	return needs(pkg)
+}
+
 func (ip *InstallPlan) GetNumPackagesToInstall() int {
 	toInstall := make(map[string]bool)
 
-- 
2.43.0


From 7850d649f99e56b4d945300a491f129618bafe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 50/50] fix: R's directory was not put on PATH if another entry
 starts with its name, and R itself was if RPath ends with a slash

---
 rcmd/configure.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index 11a8268..c3d4038 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"runtime"
 	"strings"
 
 	log "github.com/sirupsen/logrus"
@@ -60,8 +61,9 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 				continue
 			}
 			if evs[0] == "PATH" {
-				rDir := filepath.Dir(rs.Rpath)
-				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
+				rDir := filepath.Dir(rs.R(runtime.GOOS))
+				first, _, _ := strings.Cut(evs[1], string(os.PathListSeparator))
+				if rDir != "." && filepath.Clean(first) != rDir {
 					evs[1] = fmt.Sprintf("%s:%s", rDir, evs[1])
 					log.WithField("path", evs[1]).Debug("adding Rpath to front of system PATH")
 				}
-- 
2.43.0

