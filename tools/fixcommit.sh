#!/bin/bash
# usage: fixcommit.sh "fix: message"   -- tests, then commits in /repo
cd /repo && out=$(bash /verif/tools/repo_test.sh) && echo "$out" && echo "$out" | grep -q 'missing \[\]' && git commit -qam "$1" && git log --oneline | head -1
