//go:build simcmd

package sim

import (
	"context"

	"github.com/cybozu-go/moco/cmd/moco-backup/cmd"
)

func init() {
	jobMain = func(ctx context.Context, args []string, password, dir string) error {
		return cmd.SimExecute(ctx, args, password)
	}
	realCmd = true
}
