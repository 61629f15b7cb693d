From f6713acbd5a0ed15f25f1f7d76543ac8c71eb4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 01/27] fix: keep extracted archive entries inside the target
 directory

---
 1pass-up/component/github/updater.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 634b0a3..6f95640 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -168,9 +168,8 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 			return err
 		}
 
-		target := filepath.Join(dst, header.Name)
-
 		if header.Typeflag == tar.TypeReg {
+			target := filepath.Join(dst, filepath.Base(header.Name))
 			file, err := os.Create(target)
 
 			if err != nil {
-- 
2.43.0


From 8ce17517f4da27727e5337c2ed0489018f052478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 02/27] fix: install the updated binary with executable
 permissions

---
 1pass-up/component/github/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 6f95640..e9facb1 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -192,6 +192,10 @@ func (up *githubUpdater) ReplaceBinary(src string) error {
 		return err
 	}
 
+	if err := os.Chmod(src, 0755); err != nil {
+		return err
+	}
+
 	if err := os.Rename(src, dst); err != nil {
 		return err
 	}
-- 
2.43.0


From 0864d77d2d2a903fddf9d75253f4814abe0d0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 03/27] fix: do not panic on an unexpected answer of the
 release service

---
 1pass-up/component/github/updater.go | 41 +++++++++++++++-------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index e9facb1..ec5977e 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -25,6 +25,17 @@ import (
 	"github.com/mashmb/1pass/1pass-core/core/domain"
 )
 
+type githubAsset struct {
+	Name string `json:"name"`
+	Url  string `json:"browser_download_url"`
+}
+
+type githubRelease struct {
+	Changelog string        `json:"body"`
+	Version   string        `json:"tag_name"`
+	Assets    []githubAsset `json:"assets"`
+}
+
 type githubUpdater struct{}
 
 func NewGithubUpdater() *githubUpdater {
@@ -62,35 +73,27 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		return nil, err
 	}
 
-	var bodyJson []interface{}
+	var releases []githubRelease
 
-	if err := json.Unmarshal(body, &bodyJson); err != nil {
+	if err := json.Unmarshal(body, &releases); err != nil {
 		return nil, err
 	}
 
-	if bodyJson == nil || bodyJson[0] == nil {
+	if len(releases) == 0 || releases[0].Assets == nil {
 		return nil, nil
 	}
 
-	latestJson := bodyJson[0].(map[string]interface{})
-	changelog := latestJson["body"].(string)
-	version := latestJson["tag_name"].(string)
+	latest := releases[0]
+	version := latest.Version
 	newer := false
 	var archiveUrl string
 	var checksumUrl string
-	assets := latestJson["assets"].([]interface{})
-
-	if assets == nil {
-		return nil, nil
-	}
-
-	for _, assetJson := range assets {
-		asset := assetJson.(map[string]interface{})
 
-		if strings.Contains(asset["name"].(string), ".tar.gz") {
-			archiveUrl = asset["browser_download_url"].(string)
-		} else if strings.Contains(asset["name"].(string), ".md5") {
-			checksumUrl = asset["browser_download_url"].(string)
+	for _, asset := range latest.Assets {
+		if strings.Contains(asset.Name, ".tar.gz") {
+			archiveUrl = asset.Url
+		} else if strings.Contains(asset.Name, ".md5") {
+			checksumUrl = asset.Url
 		}
 	}
 
@@ -101,7 +104,7 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		newer = true
 	}
 
-	return domain.NewUpdateInfo(archiveUrl, checksumUrl, changelog, version, newer), nil
+	return domain.NewUpdateInfo(archiveUrl, checksumUrl, latest.Changelog, version, newer), nil
 }
 
 func (up *githubUpdater) CheckTimestamp(dirPath string) {
-- 
2.43.0


From f4dba79149924d8ea5396fda045180d23ea868e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 04/27] fix: reject an empty checksum file instead of panicking

---
 1pass-up/component/github/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index ec5977e..9341a65 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -261,7 +261,7 @@ func (up *githubUpdater) ValidateChecksum(binary, file string) error {
 	bytes := hash.Sum(nil)
 	calculated := hex.EncodeToString(bytes)
 
-	if chunks[0] != calculated {
+	if len(chunks) == 0 || chunks[0] != calculated {
 		return domain.ErrInvalidMd5
 	}
 
-- 
2.43.0


From a72f7a231b817e5f32d96699516cb71f76a919ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 05/27] fix: compare release versions component by component

---
 1pass-up/component/github/updater.go | 33 ++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 9341a65..6e013e2 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -58,6 +58,31 @@ func httpClient(timeout int64) http.Client {
 	return httpClient
 }
 
+func isNewer(remote, current string) bool {
+	remoteParts := strings.Split(remote, ".")
+	currParts := strings.Split(current, ".")
+
+	for i := 0; i < len(remoteParts) && i < len(currParts); i++ {
+		remoteVer, err := strconv.ParseInt(remoteParts[i], 10, 64)
+
+		if err != nil {
+			return false
+		}
+
+		currVer, err := strconv.ParseInt(currParts[i], 10, 64)
+
+		if err != nil {
+			return false
+		}
+
+		if remoteVer != currVer {
+			return remoteVer > currVer
+		}
+	}
+
+	return len(remoteParts) > len(currParts)
+}
+
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
 	resp, err := httpClient.Get(domain.GithubReleases)
@@ -85,7 +110,6 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 
 	latest := releases[0]
 	version := latest.Version
-	newer := false
 	var archiveUrl string
 	var checksumUrl string
 
@@ -97,12 +121,7 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		}
 	}
 
-	currVer, _ := strconv.ParseInt(strings.ReplaceAll(domain.Version, ".", ""), 10, 64)
-	remoteVer, _ := strconv.ParseInt(strings.ReplaceAll(version, ".", ""), 10, 64)
-
-	if remoteVer > currVer {
-		newer = true
-	}
+	newer := isNewer(version, domain.Version)
 
 	return domain.NewUpdateInfo(archiveUrl, checksumUrl, latest.Changelog, version, newer), nil
 }
-- 
2.43.0


From 4a4e661e8ec3cdb86d88a2efbf45bf2f6a76d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 06/27] fix: verify the HMAC of item keys before decrypting
 them

---
 1pass-core/core/service/keyservice.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 7bc3702..7be8712 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -120,9 +120,23 @@ func (s *dfltKeyService) DerivedKeys(password string) ([]byte, []byte, error) {
 }
 
 func (s *dfltKeyService) ItemKeys(item *domain.RawItem, keys *domain.Keys) ([]byte, []byte) {
-	itemKeys, _ := base64.StdEncoding.DecodeString(item.Keys)
-	data := itemKeys[:len(itemKeys)-32]
-	plain, _ := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+	itemKeys, err := base64.StdEncoding.DecodeString(item.Keys)
+
+	if err != nil || len(itemKeys) != 112 {
+		return nil, nil
+	}
+
+	data, mac := itemKeys[:len(itemKeys)-32], itemKeys[len(itemKeys)-32:]
+
+	if err := s.CheckHmac(data, keys.MasterMac, mac); err != nil {
+		return nil, nil
+	}
+
+	plain, err := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+
+	if err != nil {
+		return nil, nil
+	}
 
 	return plain[0:32], plain[32:64]
 }
-- 
2.43.0


From ed9add44ff8c76e223750abfa38e87881d23f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 07/27] fix: reject truncated opdata instead of panicking

---
 1pass-core/core/service/keyservice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 7be8712..5c51200 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -84,6 +84,10 @@ func (s *dfltKeyService) DecodeKeys(key, derivedKey, derivedMac []byte) ([]byte,
 }
 
 func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, error) {
+	if len(cipherText) < 64 {
+		return nil, domain.ErrInvalidHmac
+	}
+
 	data, mac := cipherText[:len(cipherText)-32], cipherText[len(cipherText)-32:]
 
 	if err := s.CheckHmac(data, macKey, mac); err != nil {
-- 
2.43.0


From 44beb78f5aef117fef2d02a14c8a07c50b65b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 08/27] fix: keep the fields of items that also have sections

---
 1pass-core/core/service/itemservice.go | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 037ef49..a178295 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -57,25 +57,25 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			detailsJson := s.DecodeDetails(encoded, keys)
 			sections := make([]*domain.ItemSection, 0)
 
-			if detailsJson["sections"] == nil {
-				if detailsJson["fields"] != nil {
-					fieldsJson := detailsJson["fields"].([]interface{})
-					fields := make([]*domain.ItemField, 0)
+			if detailsJson["fields"] != nil {
+				fieldsJson := detailsJson["fields"].([]interface{})
+				fields := make([]*domain.ItemField, 0)
 
-					for _, fieldJson := range fieldsJson {
-						field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+				for _, fieldJson := range fieldsJson {
+					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
 
-						if field != nil {
-							fields = append(fields, field)
-						}
+					if field != nil {
+						fields = append(fields, field)
 					}
+				}
 
-					if len(fields) != 0 {
-						section := domain.NewItemSection("", fields)
-						sections = append(sections, section)
-					}
+				if len(fields) != 0 {
+					section := domain.NewItemSection("", fields)
+					sections = append(sections, section)
 				}
-			} else {
+			}
+
+			if detailsJson["sections"] != nil {
 				sectionsJson := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-- 
2.43.0


From 35afc93487bf1172e22618eea1d58e214e103052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 09/27] fix: do not render numeric dates in scientific notation

---
 1pass-core/core/service/itemservice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index a178295..43dc35a 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -170,6 +171,8 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 			} else {
 				if dataType == domain.DataTypeEnum.Address {
 					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
+				} else if number, ok := data["v"].(float64); ok {
+					value = domain.DataTypeEnum.ParseValue(dataType, strconv.FormatFloat(number, 'f', -1, 64), nil)
 				} else {
 					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
 				}
-- 
2.43.0


From b3af791f4b1e4ba1f0b74b174cddc8ee7a64b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 10/27] fix: accept an empty configuration file

---
 1pass-parse/repo/file/configrepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 7d4764e..4b825ce 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -46,6 +46,10 @@ func loadConfigFile(configDir string) map[string]interface{} {
 		log.Fatalln(err)
 	}
 
+	if config == nil {
+		config = make(map[string]interface{})
+	}
+
 	return config
 }
 
-- 
2.43.0


From d026e3638f8fe1de93b784dceccbf55529da9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 11/27] fix: open the selected category when there are no
 trashed items

---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 50f5dbd..1a939e1 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -183,7 +183,7 @@ func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
 		if len(ow.categories) == 1 {
 			items = ow.guiControl.GetItems(nil, true)
 		} else {
-			if ow.currIdx == len(ow.categories)-1 {
+			if ow.currIdx == len(ow.categories)-1 && ow.categories[ow.currIdx] == nil {
 				items = ow.guiControl.GetItems(nil, true)
 			} else if ow.currIdx == 0 {
 				items = ow.guiControl.GetItems(nil, false)
-- 
2.43.0


From aa49dc8f630b845f6a871cc1146e3b16c88f6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 12/27] fix: ignore the reveal key on an empty items list

---
 1pass-app/gui/itemswidget.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 04457a8..13a541d 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -151,6 +151,10 @@ func (iw *itemsWidget) showOverview(ui *gocui.Gui) error {
 }
 
 func (iw *itemsWidget) toggleDetails(ui *gocui.Gui, view *gocui.View) error {
+	if iw.currIdx == -1 {
+		return nil
+	}
+
 	item := iw.guiControl.GetItem(iw.items[iw.currIdx])
 	iw.detailsWidget.item = item
 
-- 
2.43.0


From 774da8ec1e47c020abf260c9d2b1a6e7dd41253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 13/27] fix: drop decoded items held by GUI widgets on lock

---
 1pass-app/gui/1passwidget.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 1a939e1..c9e73fd 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -101,6 +101,8 @@ func (ow *onepassWidget) cursorUp(ui *gocui.Gui, view *gocui.View) error {
 func (ow *onepassWidget) lock(ui *gocui.Gui, view *gocui.View) error {
 	ow.currIdx = -1
 	ow.categories = make([]*domain.ItemCategory, 0)
+	ow.itemsWidget.items = make([]*domain.SimpleItem, 0)
+	ow.itemsWidget.detailsWidget.item = nil
 	ow.guiControl.LockVault()
 
 	if err := ow.resetCursor(view); err != nil {
-- 
2.43.0


From 2b1c42715405d46ab908dd64aab9b426938e2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:29 +0000
Subject: [PATCH 14/27] fix: draw the update check result on the GUI main loop

---
 1pass-app/gui/versionwidget.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index df3732b..e75ea4a 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -29,18 +29,27 @@ func newVerWidget(version string, guiControl in.GuiControl) *verWidget {
 }
 
 func (vw *verWidget) update(ui *gocui.Gui) {
-	view, _ := ui.View(vw.name)
 	info, err := vw.guiControl.CheckForUpdate()
 
-	if err != nil {
-		if err == domain.ErrNoUpdate {
-			fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+	ui.Update(func(ui *gocui.Gui) error {
+		view, viewErr := ui.View(vw.name)
+
+		if viewErr != nil {
+			return viewErr
+		}
+
+		if err != nil {
+			if err == domain.ErrNoUpdate {
+				fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+			} else {
+				fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			}
 		} else {
-			fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
 		}
-	} else {
-		fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
-	}
+
+		return nil
+	})
 }
 
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
-- 
2.43.0


From 1285fd908eec8beebc77c78d904ee20bb3e2dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:53 +0000
Subject: [PATCH 15/27] fix: extract the update archive apart from its checksum

The archive was extracted into the directory holding the downloaded
checksum, so an archive entry named like the checksum file replaced it
and the binary was validated against the archive's own checksum.
---
 1pass-core/core/service/updateservice.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index cee2047..abb46d5 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -88,11 +88,17 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 
 		stage(4)
 
-		if err := s.updater.ExtractArchive(archive, domain.CacheDir); err != nil {
+		content := filepath.Join(domain.CacheDir, "content")
+
+		if err := os.MkdirAll(content, 0700); err != nil {
+			return err
+		}
+
+		if err := s.updater.ExtractArchive(archive, content); err != nil {
 			return err
 		}
 
-		binary := filepath.Join(domain.CacheDir, domain.AppName)
+		binary := filepath.Join(content, domain.AppName)
 
 		stage(5)
 
-- 
2.43.0


From 0f4435e028f11c797ffc6dac072a112db9c9611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:49 +0000
Subject: [PATCH 16/27] fix: require every version component to be numeric

---
 1pass-up/component/github/updater.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 6e013e2..a67b403 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -61,26 +61,32 @@ func httpClient(timeout int64) http.Client {
 func isNewer(remote, current string) bool {
 	remoteParts := strings.Split(remote, ".")
 	currParts := strings.Split(current, ".")
+	order := 0
 
-	for i := 0; i < len(remoteParts) && i < len(currParts); i++ {
-		remoteVer, err := strconv.ParseInt(remoteParts[i], 10, 64)
+	for i := 0; i < len(remoteParts) || i < len(currParts); i++ {
+		var remoteVer, currVer uint64
+		var err error
 
-		if err != nil {
-			return false
+		if i < len(remoteParts) {
+			if remoteVer, err = strconv.ParseUint(remoteParts[i], 10, 64); err != nil {
+				return false
+			}
 		}
 
-		currVer, err := strconv.ParseInt(currParts[i], 10, 64)
-
-		if err != nil {
-			return false
+		if i < len(currParts) {
+			if currVer, err = strconv.ParseUint(currParts[i], 10, 64); err != nil {
+				return false
+			}
 		}
 
-		if remoteVer != currVer {
-			return remoteVer > currVer
+		if order == 0 && remoteVer > currVer {
+			order = 1
+		} else if order == 0 && remoteVer < currVer {
+			order = -1
 		}
 	}
 
-	return len(remoteParts) > len(currParts)
+	return order > 0
 }
 
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
-- 
2.43.0


From b7478042603c4ea54116b3f89e1adcdb76557bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:01 +0000
Subject: [PATCH 17/27] fix: take the vault path literally when listing band
 files

A vault path with glob characters was used as a pattern, so no band files, or
those of another directory, were read.
---
 1pass-parse/repo/file/itemrepo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 9f73385..4a4630f 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -14,6 +14,9 @@ import (
 	"github.com/mashmb/1pass/1pass-core/core/domain"
 )
 
+// The vault path has to be taken literally when it is part of a glob pattern.
+var globMeta = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
+
 type fileItemRepo struct {
 	items []*domain.Item
 }
@@ -87,7 +90,7 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
 	var itemsJson map[string]interface{}
-	bandFiles, err := filepath.Glob(filepath.Join(vault.Path, domain.ProfileDir, domain.BandFilePattern))
+	bandFiles, err := filepath.Glob(filepath.Join(globMeta.Replace(vault.Path), domain.ProfileDir, domain.BandFilePattern))
 
 	if err != nil {
 		log.Fatalln(err)
-- 
2.43.0


From 904259a183a49eff117f02ddc7005be6006bd4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:28 +0000
Subject: [PATCH 18/27] fix: read configuration and update answers line by line

An answer with a space was cut at the space, and the rest of the line answered
the following question.
---
 1pass-term/control/cobra/clicontrol.go | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index 69b0a51..f7f7ac6 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -5,6 +5,7 @@
 package cobra
 
 import (
+	"bufio"
 	"fmt"
 	"os"
 	"sort"
@@ -19,6 +20,24 @@ import (
 	"golang.org/x/term"
 )
 
+// Standard input, byte by byte: reading a line from it takes nothing of what follows that line.
+type stdin struct{}
+
+func (stdin) Read(p []byte) (int, error) {
+	if len(p) > 1 {
+		p = p[:1]
+	}
+
+	return os.Stdin.Read(p)
+}
+
+// Reads the whole line, so that an answer with spaces is not cut and does not answer the next question too.
+func readAnswer() string {
+	line, _ := bufio.NewReader(stdin{}).ReadString('\n')
+
+	return strings.TrimSpace(line)
+}
+
 type cobraCliControl struct {
 	configFacade facade.ConfigFacade
 	updateFacade facade.UpdateFacade
@@ -61,18 +80,18 @@ func (ctrl *cobraCliControl) Configure() {
 	fmt.Println("Configuring 1pass:")
 	fmt.Print(fmt.Sprintf("  1. Do you want to set default OPVault path? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&confirmVal)
+	confirmVal = readAnswer()
 	confirm, err := domain.LogicValEnum.FromName(confirmVal)
 
 	if err == nil && confirm == domain.LogicValEnum.Yes {
 		fmt.Print(fmt.Sprintf("     Default OPVault path (%v): ", config.Vault))
-		fmt.Scanln(&vaultVal)
+		vaultVal = readAnswer()
 		config.Vault = strings.TrimSpace(vaultVal)
 	}
 
 	fmt.Print(fmt.Sprintf("  2. Update notifications? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.FromValue(config.UpdateNotify).GetName()))
-	fmt.Scanln(&notifyVal)
+	notifyVal = readAnswer()
 	notify, err := domain.LogicValEnum.FromName(notifyVal)
 
 	if err == nil {
@@ -80,7 +99,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  3. Update HTTP timeout in seconds (%d) [1-30]: ", config.Timeout))
-	fmt.Scanln(&timeoutVal)
+	timeoutVal = readAnswer()
 	timeout, err := strconv.ParseInt(timeoutVal, 10, 64)
 
 	if err == nil && timeout >= 1 && timeout <= 30 {
@@ -88,7 +107,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  4. How often check for updates in days (%d) [0-365]: ", config.UpdatePeriod))
-	fmt.Scanln(&periodVal)
+	periodVal = readAnswer()
 	period, err := strconv.ParseInt(periodVal, 10, 64)
 
 	if err == nil && period >= 0 && period <= 365 {
@@ -360,7 +379,7 @@ func (ctrl *cobraCliControl) Update() {
 	fmt.Println(msg)
 	var permissionVal string
 	fmt.Print(fmt.Sprintf("Do you want to update now? (%v) [y - for yes/n - for no]: ", domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&permissionVal)
+	permissionVal = readAnswer()
 	permission, err := domain.LogicValEnum.FromName(permissionVal)
 
 	if err != nil || permission == domain.LogicValEnum.No {
-- 
2.43.0


From e07b10f15df277d3d9345404f679b95c476bd346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:34 +0000
Subject: [PATCH 19/27] fix: scroll the menu back to its first entry when
 locking

The menu kept its scroll position, because the cursor can always be put on
the first visible row. After the next unlock another row than the selected
one was highlighted.
---
 1pass-app/gui/1passwidget.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index c9e73fd..d139a12 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -137,7 +137,9 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 		ox, oy := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
+		_ = view.SetCursor(cx, 0)
+
+		if oy > 0 {
 			if err := view.SetOrigin(ox, 0); err != nil {
 				return err
 			}
-- 
2.43.0


From 5dc57dae1eeae7745048881072e30b21c3a51120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:18 +0000
Subject: [PATCH 20/27] fix: show the keys of the menu again after going back
 from the items

---
 1pass-app/gui/itemswidget.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 13a541d..c045fb3 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -103,6 +103,12 @@ func (iw *itemsWidget) goBack(ui *gocui.Gui, view *gocui.View) error {
 		return err
 	}
 
+	iw.helpWidget.help = onepassHelp
+
+	if err := iw.helpWidget.update(ui); err != nil {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 99f5656c65a41f7a73fa77f065e6313a476ce8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:18 +0000
Subject: [PATCH 21/27] fix: show an item from its start after scrolling in
 both directions

---
 1pass-app/gui/detailswidget.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index 8889b36..b927a7c 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -39,18 +39,8 @@ func newDetailsWidget(parent string, helpWidget *helpWidget, lockHandler func(ui
 
 func (dw *detailsWidget) resetOrigin(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
-
-		if ox > 0 {
-			if err := view.SetOrigin(0, oy); err != nil {
-				return err
-			}
-		}
-
-		if oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(0, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 4ce19c53e8c4c2fad1a49a6e3e97a63e0c3b678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:52 +0000
Subject: [PATCH 22/27] fix: take the password typed in the GUI exactly as it
 was typed

Blanks around it were cut off, and keys that were typed since the prompt
was last drawn (a pasted password, say) were missing.
---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index d139a12..214388d 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -151,7 +151,7 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 }
 
 func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
-	password := strings.TrimSpace(view.ViewBuffer())
+	password := strings.TrimRight(view.Buffer(), "\n")
 
 	if err := ui.DeleteView(ow.passPrompt.name); err != nil {
 		return err
-- 
2.43.0


From a4eefb9e4786b4ac6330da85d6501418159bc11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:05 +0000
Subject: [PATCH 23/27] fix: show values with a carriage return or escape in
 the GUI, whose views took them as orders and dropped text

---
 1pass-app/gui/detailswidget.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index b927a7c..69507d4 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -6,6 +6,7 @@ package gui
 
 import (
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/jroimartin/gocui"
@@ -18,6 +19,12 @@ Scroll left/right: h/l
 Cover item: TAB`
 )
 
+// Text as it can be written to a view, which drops the line written so far at a carriage return and takes escape as
+// the start of a color.
+func printable(text string) string {
+	return strings.NewReplacer("\r\n", "\n", "\r", "\n", "\x1b", "^[").Replace(text)
+}
+
 type detailsWidget struct {
 	name        string
 	title       string
@@ -133,13 +140,13 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 	if dw.item != nil {
 		fmt.Fprint(view, fmt.Sprintf("%v\n", dw.item.Category.GetName()))
 		fmt.Fprint(view, "------------------------------\n")
-		fmt.Fprint(view, fmt.Sprintf("%v\n\n", dw.item.Title))
+		fmt.Fprint(view, printable(fmt.Sprintf("%v\n\n", dw.item.Title)))
 		updated := time.Unix(dw.item.Updated, 0).Format("2006-01-02 15:04:05")
 		created := time.Unix(dw.item.Created, 0).Format("2006-01-02 15:04:05")
 		fmt.Fprint(view, fmt.Sprintf("Updated: %v\nCreated: %v\nTrashed: %v\n", updated, created, dw.item.Trashed))
 
 		if dw.item.Url != "" {
-			fmt.Fprint(view, fmt.Sprintf("URL: %v\n", dw.item.Url))
+			fmt.Fprint(view, printable(fmt.Sprintf("URL: %v\n", dw.item.Url)))
 		}
 
 		if overview {
@@ -148,14 +155,14 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 					fmt.Fprint(view, "\n")
 
 					if section.Title != "" {
-						fmt.Fprint(view, fmt.Sprintf("%v\n", section.Title))
+						fmt.Fprint(view, printable(fmt.Sprintf("%v\n", section.Title)))
 					}
 
 					fmt.Fprint(view, "------------------------------\n")
 
 					if section.Fields != nil {
 						for _, field := range section.Fields {
-							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", field.Name, "**********"))
+							fmt.Fprint(view, printable(fmt.Sprintf("%v: %v\n", field.Name, "**********")))
 						}
 					}
 				}
@@ -178,14 +185,14 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 					fmt.Fprint(view, "\n")
 
 					if section.Title != "" {
-						fmt.Fprint(view, fmt.Sprintf("%v\n", section.Title))
+						fmt.Fprint(view, printable(fmt.Sprintf("%v\n", section.Title)))
 					}
 
 					fmt.Fprint(view, "------------------------------\n")
 
 					if section.Fields != nil {
 						for _, field := range section.Fields {
-							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", field.Name, field.Value))
+							fmt.Fprint(view, printable(fmt.Sprintf("%v: %v\n", field.Name, field.Value)))
 						}
 					}
 				}
@@ -200,7 +207,7 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 
 				fmt.Fprint(view, "Notes\n")
 				fmt.Fprint(view, "------------------------------\n")
-				fmt.Fprint(view, fmt.Sprintf("%v\n", dw.item.Notes))
+				fmt.Fprint(view, printable(fmt.Sprintf("%v\n", dw.item.Notes)))
 			}
 		}
 	}
-- 
2.43.0


From 7e5e351e1281ba7d4b4277ee0432020dcc2e17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 24/27] fix: keep a title with a line break in one row of the
 item list, so that the row marked is the selected one

---
 1pass-app/gui/itemswidget.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index c045fb3..28492ac 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -6,6 +6,7 @@ package gui
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/jroimartin/gocui"
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -204,7 +205,7 @@ func (iw *itemsWidget) update(ui *gocui.Gui) error {
 				title = "<NO TITLE>"
 			}
 
-			position := fmt.Sprintf("%v\n", title)
+			position := fmt.Sprintf("%v\n", strings.ReplaceAll(printable(title), "\n", " "))
 			fmt.Fprint(view, position)
 		}
 
-- 
2.43.0


From 0af925fce6c547721c3617969934708b3c76457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:16 +0000
Subject: [PATCH 25/27] fix: give the terminal back before a failing GUI
 session reports its error

---
 1pass-app/gui/gocui.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/1pass-app/gui/gocui.go b/1pass-app/gui/gocui.go
index ddaefd2..c344973 100644
--- a/1pass-app/gui/gocui.go
+++ b/1pass-app/gui/gocui.go
@@ -50,14 +50,17 @@ func (gui *GocuiGui) Run(vaultPath string) {
 	ui.SetManager(version, help, onepass)
 
 	if err := onepass.Keybindings(ui); err != nil {
+		ui.Close()
 		log.Fatalln(err)
 	}
 
 	if err := ui.SetKeybinding("", gocui.KeyCtrlQ, gocui.ModNone, gui.quit); err != nil {
+		ui.Close()
 		log.Fatalln(err)
 	}
 
 	if err := ui.MainLoop(); err != nil && err != gocui.ErrQuit {
+		ui.Close()
 		log.Fatalln(err)
 	}
 }
-- 
2.43.0


From 249563f06894d507aac5c26b8e93f17199feeeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 26/27] fix: end with a failure status when the command line is
 not accepted

---
 1pass-app/cli/cobra.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/1pass-app/cli/cobra.go b/1pass-app/cli/cobra.go
index f623b27..6551389 100644
--- a/1pass-app/cli/cobra.go
+++ b/1pass-app/cli/cobra.go
@@ -6,6 +6,7 @@ package cli
 
 import (
 	"fmt"
+	"os"
 
 	"github.com/mashmb/1pass/1pass-app/gui"
 	"github.com/mashmb/1pass/1pass-core/port/in"
@@ -153,5 +154,6 @@ func (cli *cobraCli) Run() {
 
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From f26c1ca8affded462234af56ab3809986395769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 27/27] fix: open a vault in which one of the band files holds
 no items

---
 1pass-parse/repo/file/itemrepo.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 4a4630f..1da7d70 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -106,10 +106,12 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			itemsFile = itemsFile + string(file[4:len(file)-3]) + ","
+			if band := string(file[4 : len(file)-3]); strings.TrimSpace(band) != "" {
+				itemsFile = itemsFile + band + ","
+			}
 		}
 
-		itemsFile = itemsFile[:len(itemsFile)-1] + "}"
+		itemsFile = strings.TrimSuffix(itemsFile, ",") + "}"
 
 		if err := json.Unmarshal([]byte(itemsFile), &itemsJson); err != nil {
 			log.Fatalln(err)
-- 
2.43.0

