LEVELS = {"C%02d" % i: "proof" for i in range(1, 21)}
NOTES = {}
NA = {}
