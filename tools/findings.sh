#!/bin/bash
# Lists the fix commits of /repo, to keep known_findings.txt in step.
git -C /repo log --reverse --format='%h %s' 2ff1dd2..HEAD
