#!/bin/bash
# All checks over a copy of /repo that mentions words and numbers it does not use: the dictionary must not raise alarms.
d=$(mktemp -d /tmp/nov.XXXXXX); cp -a /repo/. "$d/"
cat >> "$d/ombott/ombott.py" <<'P'


_UNUSED = ('HTTP_X_TRACE_ID', 'X-Powered-By', 'debug', '_method', 'deflate', 'HTTP_X_HTTP_METHOD_OVERRIDE', 'wsgi.input_terminated', 4097, 37, 'TRACE', 'wer&<t>', 'file name.txt', 'é', 'charset=x', 'a\nb', 'C:\\x', '__proto__', 'SameSite', 'identity', 'boundary', 'name*', '%s')
P
for s in ${SEEDS:-1}; do for c in ${*:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20}; do
  VERIF_SEED=$s VERIF_REPO=$d VERIF_EVIDENCE=$d/ev /verif/check C$c 2>&1 | grep -v 'observed\|KNOWN' | cut -c1-700
done; done
rm -rf "$d"
