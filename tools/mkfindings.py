# writes the fixed: lines of known_findings.txt from /repo's fix: commits (run by hand; the known: lines are kept)
import subprocess, os
PROP = {"98e8d0e":"P08","dc2be3b":"P03","3ffd65f":"P16","dd93f1c":"P08","8ff27c0":"P13","2fdb2bd":"P04","598c778":"P12","e8a41db":"P24","7521bfe":"P12","937521c":"P08","b4a8e2c":"P01","57f42b0":"P06","d33f8ba":"P09","e607f4f":"P10","84461cd":"P13","952ab50":"P10","ce75b40":"P09","6ac5245":"P14","a0b8704":"P14","fe39882":"P22","5bb4dfd":"P25","50512a0":"P20","6f4770f":"P05","f34b377":"P17","b00f7e4":"P12","a671224":"P17","73d5994":"P21","955d513":"P08","7a1c776":"P08","840eb50":"P08","a8dda21":"P07","2a7ce03":"P12","0b45c07":"P16","4e5ffb4":"P19","b2a2f7d":"P10","3ceace6":"P21","864c804":"P15","3fed4a3":"P21","9a37850":"P10","55b20f7":"P05"}
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.txt")
try: keep = [l for l in open(path) if l.startswith("known:")]
except OSError: keep = []
out = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","13c1cbd..HEAD"],capture_output=True,text=True).stdout.splitlines()
with open(path,"w") as f:
    f.write("# known: property=<id> id=<name of the KNOWN() input in harness/> <what fails>\n# fixed: property=<id> <commit in /repo> <what failed>   (suppresses nothing)\n")
    f.writelines(keep)
    for l in out:
        h, s = l.split(" ", 1)
        if s.startswith("fix: "): f.write("fixed: property=%s %s %s\n" % (PROP[h], h, s[5:]))
