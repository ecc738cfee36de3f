prop = 'C27'
needs = 'a sub-program that fails with an exit code other than 1'
breaks = 'the exit code is normalised so that any failure other than 1 counts as success'
edits = [('app_main.cpp', '        return code;\n\n        // try', '        return code == EXIT_FAILURE ? EXIT_FAILURE : EXIT_SUCCESS;\n\n        // try')]
sh = r'''(cd "$t" && timeout 60 "$OLDPWD/mara" test --no-such-option > /dev/null 2>&1); c=$?
echo "exit code $c"
[ $c -ne 0 ]
'''
