#!/usr/bin/env python3
"""overlay.py OUTDIR LEVEL: writes OUTDIR/overlay.json for building moco's backup code into the simulator.

moco-backup starts external programs (mysqlsh, mysqlbinlog, mysql, tar, zstd) with os/exec, and
cmd/moco-backup opens buckets with pkg/bucket. In the simulator's build only, these imports are
replaced with packages that offer the same functions and hand the calls to the simulator.
LEVEL 2: os/exec and pkg/bucket in cmd/moco-backup (with an entry point); 1: os/exec only.
"""
import glob, json, os, re, sys

out, level = sys.argv[1], int(sys.argv[2])
repo = "/repo"
repl = {}
os.makedirs(out, exist_ok=True)


def rewrite(path, imports):
    s = open(path).read()
    t = s
    for old, (name, new) in imports.items():
        t = re.sub(r'(?m)^(\s*(?:import\s+)?)([A-Za-z_]\w*\s+)?"%s"' % re.escape(old),
                   lambda m: '%s%s"%s"' % (m.group(1), m.group(2) or name + " ", new), t)
    if t != s:
        dst = os.path.join(out, path.strip("/").replace("/", "_"))
        open(dst, "w").write(t)
        repl[path] = dst


def files(d):
    return sorted(f for f in glob.glob(d + "/**/*.go", recursive=True) if not f.endswith("_test.go"))


EXEC = {"os/exec": ("exec", "mocosim/simexec")}
for d in ("backup", "pkg/bkop"):
    for f in files(os.path.join(repo, d)):
        rewrite(f, EXEC)
if level >= 2:
    for f in files(os.path.join(repo, "cmd/moco-backup")):
        rewrite(f, {**EXEC, "github.com/cybozu-go/moco/pkg/bucket": ("bucket", "mocosim/simbucket")})
    z = os.path.join(out, "zz_sim.go")
    open(z, "w").write('''package cmd

import (
	"context"
	"io"

	"github.com/spf13/cobra"
	"github.com/spf13/pflag"
)

// SimExecute is main() with arguments, for one simulated process at a time.
func SimExecute(ctx context.Context, args []string, password string) error {
	var reset func(c *cobra.Command)
	reset = func(c *cobra.Command) {
		c.SetContext(nil)
		for _, fs := range []*pflag.FlagSet{c.Flags(), c.PersistentFlags()} {
			fs.VisitAll(func(f *pflag.Flag) {
				_ = f.Value.Set(f.DefValue)
				f.Changed = false
			})
		}
		for _, x := range c.Commands() {
			reset(x)
		}
	}
	reset(rootCmd)
	mysqlPassword = password
	rootCmd.SetArgs(args)
	rootCmd.SetOut(io.Discard)
	rootCmd.SetErr(io.Discard)
	return rootCmd.ExecuteContext(ctx)
}
''')
    repl[os.path.join(repo, "cmd/moco-backup/cmd/zz_sim.go")] = z
json.dump({"Replace": repl}, open(os.path.join(out, "overlay.json"), "w"))
