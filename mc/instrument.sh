#!/bin/sh
# A compiler wrapper: atomic accesses of webrtc-sdp become calls (see src/atomics.rs).
case " $* " in
*" --crate-name webrtc_sdp "*) exec "$@" -C passes=tsan ;;
esac
exec "$@"
