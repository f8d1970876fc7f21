#!/bin/bash
# The client feature of the program includes a verifying key file that is not part of the repository. `overlay/` is a view of /repo
# (symbolic links to its files, so always its current working tree) with an empty file in that place.
cd "$(dirname "$0")" || exit 1
repo="${REPO:-/repo}"
rm -rf "$PWD/overlay.new"
mkdir -p overlay.new/elusiv/src/proof/vkeys/send_quadra
link() { for f in "$1"/* ; do n="$(basename "$f")"; case " $3 " in *" $n "*) ;; *) ln -s "$f" "$2/$n" ;; esac; done; }
link "$repo" overlay.new "elusiv"
link "$repo/elusiv" overlay.new/elusiv "src target"
link "$repo/elusiv/src" overlay.new/elusiv/src "proof"
link "$repo/elusiv/src/proof" overlay.new/elusiv/src/proof "vkeys"
link "$repo/elusiv/src/proof/vkeys" overlay.new/elusiv/src/proof/vkeys "send_quadra"
link "$repo/elusiv/src/proof/vkeys/send_quadra" overlay.new/elusiv/src/proof/vkeys/send_quadra ""
[ -e overlay.new/elusiv/src/proof/vkeys/send_quadra/elusiv_vkey.bin ] || : > overlay.new/elusiv/src/proof/vkeys/send_quadra/elusiv_vkey.bin
# keep the old view if nothing changed (its time stamps decide what is built again)
desc() { (cd "$1" && find . \( -type l -printf '%P -> %l\n' -o -type f -printf '%P %s\n' \) | sort); }
if [ -d overlay ] && [ "$(desc overlay)" = "$(desc overlay.new)" ]; then rm -rf "$PWD/overlay.new"; else rm -rf "$PWD/overlay"; mv overlay.new overlay; fi
