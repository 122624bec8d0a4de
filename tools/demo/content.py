import sys

s = sys.argv[1]
enc = ("/Encoding << /Type /Encoding /BaseEncoding /WinAnsiEncoding /Differences [65 /%s] >>" % sys.argv[2]
       if len(sys.argv) > 2 else "")
objs = ["<< /Type /Catalog /Pages 2 0 R >>",
        "<< /Type /Pages /Count 1 /Kids [4 0 R] >>",
        "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica %s >>" % enc,
        "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 612 792] /Contents 5 0 R "
        "/Resources << /Font << /F1 3 0 R >> >> >>",
        "<< /Length %d >>\nstream\n%s\nendstream" % (len(s), s)]
out = "%PDF-1.4\n"
off = []
for i, o in enumerate(objs):
    off.append(len(out))
    out += "%d 0 obj\n%s\nendobj\n" % (i + 1, o)
x = len(out)
out += "xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1)
out += "".join("%010d 00000 n \n" % o for o in off)
out += "trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % (len(objs) + 1, x)
sys.stdout.write(out)
