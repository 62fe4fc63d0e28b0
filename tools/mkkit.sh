#!/bin/bash
# writes the self-contained kit the demonstrations use
H=/verif/harness/lib
{ cat $H/env.mjs; sed "s#process.env.VERIF_REPO ?? '/repo'#process.cwd()#" $H/bundle.mjs; grep -v '^export {\|^import' $H/browser.mjs; cat <<'J'
export const fail = (why) => { console.log('FAIL ' + why); process.exit(1); };
export const check = (ok, why) => { if (!ok) fail(why); };
J
} > $1/kit.mjs
