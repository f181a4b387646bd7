"""Delays of the experiments' cases and instances, as first published with the repository."""

_LONG = dict(zip([94766, 26013, 5312, 40518, 34319, 14006, 40150, 41004, 45101, 4500, 49317, 64359, 44862, 73000],
                 [30, 12, 18, 5, 30, 23, 3, 21, 35, 10, 25, 7, 5, 16]))
REAL = {
    0: {}, 4: {}, 1: {14006: 12},
    2: {94766: 15, 40518: 12, 41004: 13, 44862: 6, 4120: 21},
    3: _LONG, 5: _LONG, 6: _LONG, 7: _LONG,
    8: dict(zip([94766, 26013, 42009, 5312, 34319, 14006, 94611, 40150, 41004, 45101, 94113, 40673, 54101],
                [28, 10, 12, 7, 30, 13, 3, 10, 28, 30, 11, 5, 7])),
    9: dict(zip([94766, 26013, 42009, 5312, 40518, 34319, 14006, 40150, 41004, 45101, 4500, 49317, 64359, 44862, 73000],
                [30, 11, 15, 19, 5, 28, 21, 4, 21, 34, 11, 25, 7, 5, 5])),
}
_DOUBLE = [
    {}, {4602: 2}, {6401: 3, 4604: 13}, {1: 2, 3: 2, 5: 7}, {2: 2, 4: 2, 6405: 3, 6407: 3}, {1: 5, 2: 3, 3: 7, 4: 2, 5: 1, 6401: 2},
    {3: 7, 4: 2, 5: 1, 23: 6, 1: 6, 6407: 2, 101: 4, 4602: 7},
    {1: 5, 11: 3, 21: 3, 25: 2, 2: 4, 4: 6, 6: 6, 8: 3, 10: 3, 22: 6, 24: 1},
    {1: 3, 2: 5, 3: 7, 4: 25, 5: 8, 6: 12, 7: 17, 23: 4, 25: 3, 24: 8, 10: 4, 6401: 3, 6403: 7, 101: 8},
    {2: 3, 4602: 1, 4: 10, 102: 2, 6: 15, 8: 7, 4604: 4, 10: 1, 12: 7, 1: 10, 101: 8, 3: 2, 6401: 6, 5: 15, 7: 1, 103: 30, 9: 7, 6403: 8},
]
_SINGLE = [
    {}, {2: 18}, {2: 36, 4602: 20}, {101: 18, 1: 29, 3: 25}, {101: 18, 1: 29, 3: 25, 5: 15, 2: 18},
    {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12},
    {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12, 103: 15, 10: 50, 4606: 30},
    {2: 50, 4602: 32, 4: 10, 102: 5, 1: 12, 101: 10},
    {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 3: 20},
    {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60, 10: 25},
    {1: 29, 2: 36, 4602: 20, 9: 12, 4606: 30, 102: 45, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60, 4604: 10, 10: 25},
    {2: 92, 4602: 70, 4: 72, 102: 46, 101: 45, 6401: 33, 6403: 20, 5: 25, 103: 28, 3: 59, 4604: 12, 10: 25},
]
# timetable file of a case
FILE = {("solve_KO_GLC_problems.py", 1): "data/KO_GLC/trains_schedules_KO_GLC.csv",
        ("solve_KO_GLC_problems.py", 2): "data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC.csv",
        ("solve_KO_GLC_problems.py", 3): "data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv"}
for _c in range(10):
    FILE["solve_real_problem.py", _c] = "data/trains_schedules%s.csv" % ("" if _c < 4 else "_Gt" if _c < 6 else "_1track" if _c == 6 else "_1track_Gt")


def instances(script, case, numbers):
    """Delays by train of every instance the script solves for the case, given the trains of its timetable."""
    if "KO" not in script:
        return [REAL[case]]
    if case == 3:
        return _SINGLE
    return _DOUBLE + [{n: n % 3 for n in numbers}, {n: n % 10 for n in numbers}]
