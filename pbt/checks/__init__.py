from pbt.checks import times, files, edits, structure, values, timelines, refused, construct, separate, song, template, printed, unimplemented, equality
