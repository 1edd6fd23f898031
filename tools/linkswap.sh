#!/bin/bash
# go -toolexec wrapper: links the simulator against a runtime whose select
# statements poll their cases in an order that depends on simulated time.
tool=$1; shift
[ "$1" = "-V=full" ] && exec "$tool" "$@"
args=()
case "$(basename "$tool")" in
compile) # the replaced file keeps the name it has in an unmodified runtime
  for a in "$@"; do args+=("${a//=>$SIM_GOROOT\/src/=>\$GOROOT/src}"); done
  exec "$tool" "${args[@]}";;
link)
  [ -n "$SIM_RUNTIME_A" ] || exec "$tool" "$@"
  next=
  for a in "$@"; do
    if [ -n "$next" ]; then
      sed "s#^packagefile runtime=.*#packagefile runtime=$SIM_RUNTIME_A#" "$a" > "$a.sim"
      args+=("$a.sim"); next=; continue
    fi
    [ "$a" = "-importcfg" ] && next=1
    args+=("$a")
  done
  exec "$tool" "${args[@]}";;
esac
exec "$tool" "$@"
