package PKG

import (
	"testing"

	corefacade "github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"
)

func demoFacade(t *testing.T) corefacade.VaultFacade {
	configRepo := file.NewFileConfigRepo(t.TempDir())
	itemRepo := file.NewFileItemRepo()
	profileRepo := file.NewFileProfileRepo()
	keys := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), profileRepo)
	items := service.NewDfltItemService(keys, itemRepo)
	vaults := service.NewDfltVaultService(itemRepo, profileRepo)
	return corefacade.NewDfltVaultFacade(service.NewDfltConfigService(configRepo), items, keys, vaults)
}
