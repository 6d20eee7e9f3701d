"""Which property each fix commit in /repo restores (used to write known_findings.txt)."""
import subprocess

M = [
    ("a crash while the snapshot", "C28"), ("resca() took the ratings", "C25"), ("smaint() listed a unit twice", "C03"),
    ("pmsc() moved the user's", "C23"), ("the snapshot held the year", "C20"), ("the snapshot lacked", "C20"),
    ("year() wrote dummy", "C20"), ("report() printed NaN", "C19"), ("report() gave the pool", "C19"),
    ("narpMain() allowed a zero width", "C19"), ("cvchk() crashed", "C18"), ("year() failed to print", "C17"),
    ("weighted pool statistics", "C17"), ("year() did not reset", "C17"), ("the season ends given", "C04"),
    ("narpMain() started", "C04"), ("week() put planned", "C03"), ("hour() crashed with daily", "C02"),
    ("hour() treated the last hour", "C02"), ("read_card_ZZOD()", "C07"), ("datax() crashed on firm", "C08"),
    ("smaint() never planned", "C03"), ("resca() used first-season", "C25"), ("xldnew() mixed up", "C21"),
    ("transm() passed area limits", "C12"), ("linp() let artificial", "C13"), ("transm() charged first-pass", "C12"),
    ("tm2() ignored line outages", "C11"), ("tm2() crashed writing", "C12"), ("tm2() overwrote", "C12"),
    ("tm2() did not update", "C12"), ("tm2() could not call", "C11"), ("net() gave", "C11"), ("hour() crashed whenever", "C15"),
    ("tm2() kept only", "C29"), ("hrstat() and pkstat() charged", "C16"),
]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
for k, p in M:
    assert sum("fix: " + k in l for l in log) == 1, k
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p = [p for k, p in M if s.startswith("fix: " + k)]
        assert len(p) == 1, s
        print("fixed: property=%s %s %s" % (p[0], h, s[5:]))
