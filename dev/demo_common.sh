#!/bin/bash
# exit 0: property holds on this tree, 1: broken, 2: demo itself could not be built
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=/repo; B=/repo/_build
INC="-I$D"
for d in iceoryx_platform/generic/include iceoryx_platform/linux/include iceoryx_hoofs/buffer/include iceoryx_hoofs/cli/include \
  iceoryx_hoofs/concurrent/buffer/include iceoryx_hoofs/concurrent/sync/include iceoryx_hoofs/concurrent/sync_extended/include \
  iceoryx_hoofs/container/include iceoryx_hoofs/design/include iceoryx_hoofs/functional/include iceoryx_hoofs/memory/include \
  iceoryx_hoofs/primitives/include iceoryx_hoofs/reporting/include iceoryx_hoofs/time/include iceoryx_hoofs/utility/include \
  iceoryx_hoofs/vocabulary/include iceoryx_hoofs/posix/design/include iceoryx_hoofs/posix/vocabulary/include iceoryx_hoofs/filesystem/include \
  iceoryx_hoofs/posix/auth/include iceoryx_hoofs/posix/ipc/include iceoryx_hoofs/posix/filesystem/include iceoryx_hoofs/posix/sync/include \
  iceoryx_hoofs/posix/time/include iceoryx_hoofs/posix/utility/include iceoryx_hoofs/legacy/include iceoryx_posh/include \
  iceoryx_posh/experimental/include iceoryx_posh/source iceoryx_posh/source/roudi iceoryx_binding_c/include; do INC="$INC -I$R/$d"; done
for d in iceoryx_platform iceoryx_hoofs iceoryx_posh iceoryx_binding_c; do INC="$INC -I$B/generated/$d/include"; done
INC="$INC -I$B/dependencies/install/include -I$R/iceoryx_hoofs/testing/include -I$R/iceoryx_posh/testing/include"
LIBS="-Wl,--start-group $B/iceoryx_binding_c/libiceoryx_binding_c.a $B/posh/libiceoryx_posh_roudi.a $B/posh/libiceoryx_posh_gateway.a $B/posh/libiceoryx_posh.a $B/hoofs/libiceoryx_hoofs.a $B/platform/libiceoryx_platform.a -Wl,--end-group -lacl -lrt -lpthread -ldl -latomic"
