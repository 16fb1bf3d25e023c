/* empty: thresholds are chosen on the command line of the harness build */
