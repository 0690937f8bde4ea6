unit F05
title temporary names are created exclusively and recognised for cleanup
packages fsutil fsutil/errdef fsutil/internal/bufpool
include std paths

ghost buf string = ""
ghost opens int = 0
ghost mkdirs int = 0
ghost mkname string = ""
ghost name0 string = ""
ghost dirop int = 0
ghost stop int = 0
ghost won int = 0
ghost rnd string = ""
ghost removes int = 0
ghost removed string = ""
ghost lasterr int = 0
ghost lasterrt int = 0
ghost lastf int = 0
define sameerr(e) = ref(e) == lasterr && tag(e) == lasterrt

spec runecount(s string) int

extern (*strings.Builder).Grow(b, n)
extern (*strings.Builder).WriteByte(b, c) (err)
  sets buf = buf + chr(c)
extern (*strings.Builder).WriteString(b, s) (n, err)
  sets buf = buf + s
# one builder at a time, read once
extern (*strings.Builder).String(b) (r)
  ensures r == old(buf)
  sets rnd = buf
  sets buf = ""
# the decimal digits of a number, at most ten for a 32-bit one
extern strconv.FormatUint(n, base) (r)
  ensures base == 10 ==> digits(r) && len(r) >= 1
  ensures base == 10 && n <= 4294967295 ==> len(r) <= 10
extern v2.Uint32() (r)
extern utf8.DecodeRuneInString(s) (r, n)
  ensures s != "" ==> n >= 1 && n <= 4 && n <= len(s)
  ensures s == "" ==> n == 0

invoke *.OpenFile(f, name, flag, perm) (r, err)
  requires [exclusive] flag & os.O_CREATE != 0 ==> flag & os.O_EXCL != 0
  requires [no_truncation] flag & os.O_TRUNC == 0
  requires [only_after_collision] stop == 0
  requires [opens_own_dir] flag & os.O_CREATE == 0 ==> name == mkname && mkdirs > 0
  sets opens = opens + ite(flag & os.O_CREATE != 0, 1, 0)
  sets stop = ite(err == nil || !errIs(err, fs.ErrExist), 1, 0)
  sets won = ite(err == nil, 1, 0)
  sets name0 = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)
  sets lastf = key(r)
invoke *.Mkdir(f, name, perm) (err)
  requires [only_after_collision] stop == 0
  sets mkdirs = mkdirs + 1
  sets mkname = name
  sets stop = ite(err != nil && !errIs(err, fs.ErrExist), 1, 0)
invoke *.RemoveAll(f, name) (err)
  requires [own_dir] mkdirs > 0 ==> name == mkname
  sets removes = removes + 1
  sets removed = name
  sets lasterr = ref(err)
  sets lasterrt = tag(err)

# ten decimal digits, whatever number was drawn
func fsutil.randomUint32Padded() (r)
  modifies ghost buf
  modifies ghost rnd
  requires buf == ""
  ensures [ten] len(r) == 10
  ensures [digits] digits(r)
  ensures buf == "" && rnd == r


# What a pattern makes of a number: it replaces the last '*', or follows.
define px(p) = ite(contains(p, "*"), substr(p, 0, lastidx(p, "*")), p)
define sx(p) = ite(contains(p, "*"), substr(p, lastidx(p, "*") + 1, len(p) - lastidx(p, "*") - 1), "")
define named(d, p) = len(rnd) == 10 && digits(rnd) && name0 == join2(ite(d == "", "./", d), px(p) + rnd + sx(p))

func fsutil.openRandom(fsys, dir, pattern, perm, open)
  option inline
  loop 0 invariant attempt < 10000
  loop 0 decreases 10000 - attempt

func fsutil.OpenFileRandom(fsys, dir, pattern, perm) (f, err)
  modifies ghost buf
  modifies ghost rnd
  modifies ghost opens
  modifies ghost name0
  modifies ghost stop
  modifies ghost won
  modifies ghost lasterr
  modifies ghost lasterrt
  modifies ghost lastf
  requires buf == "" && stop == 0 && opens == 0 && won == 0
  ensures [bounded] opens <= 10000
  ensures [last] err == nil ==> opens >= 1 && won == 1 && key(f) == lastf
  ensures [none] err != nil ==> won == 0
  ensures [name] opens > 0 ==> named(dir, pattern)
  ensures [gives_up] opens == 10000 && won == 0 && stop == 0 ==> errIs(err, fsutil.ErrMaxRetry)
  ensures [reported] opens > 0 && stop == 1 && won == 0 ==> sameerr(err)
  ensures [refused] contains(pattern, "/") ==> opens == 0 && errIs(err, fsutil.ErrBadPattern)
func fsutil.MkdirRandom(fsys, dir, pattern, perm) (f, err)
  modifies ghost buf
  modifies ghost rnd
  modifies ghost mkdirs
  modifies ghost mkname
  modifies ghost name0
  modifies ghost stop
  modifies ghost won
  modifies ghost lasterr
  modifies ghost lasterrt
  modifies ghost lastf
  modifies ghost opens
  modifies ghost removes
  modifies ghost removed
  requires buf == "" && stop == 0 && opens == 0 && won == 0
  ensures [bounded] mkdirs <= old(mkdirs) + 10000
  ensures [nofile] opens == 0
  ensures [last] err == nil ==> mkdirs > old(mkdirs) && won == 1 && key(f) == lastf && name0 == mkname
  ensures [name] err == nil ==> named(dir, pattern)
  ensures [gives_up] mkdirs == old(mkdirs) + 10000 && won == 0 && stop == 0 ==> errIs(err, fsutil.ErrMaxRetry)
  ensures [refused] contains(pattern, "/") ==> mkdirs == old(mkdirs) && errIs(err, fsutil.ErrBadPattern)

# The names a policy recognises as its own.
define recR(b) = len(b) >= 16 && suffixof(".tmp", b) && digits(substr(b, len(b) - 14, 10)) && substr(b, len(b) - 15, 1) == "."
define recD(b) = len(b) == 14 && suffixof(".tmp", b) && digits(substr(b, 0, 10))
define under(d, p) = ite(d == ".", islocal(p), p == d || prefixof(ite(suffixof("/", d), d, d + "/"), p))

axiom forall a string, b string :: {join2(a, b)} b != "" && b != "." && b != ".." && !contains(b, "/") ==> baseof(join2(a, b)) == b
axiom forall s string :: {clean(s)} baseof(clean(s)) == baseof(s)

func (fsutil.TempFilePolicyRandom).Match(p, path) (ok)
  ensures [sound] ok ==> recR(baseof(path))
  ensures [complete] recR(baseof(path)) ==> ok
func (fsutil.TempFilePolicyDir).Match(p, path) (ok)
  ensures [sound] ok ==> recD(baseof(path)) && under(clean(p.tempDir), clean(path))
  ensures [complete] recD(baseof(path)) && under(clean(p.tempDir), clean(path)) ==> ok
verify (fsutil.TempFilePolicyRandom).Create(p, fsys, target, perm) (f, dir, err)
  ensures [dir] err == nil ==> dir == dirof(clean(target)) && opens >= 1 && mkdirs == 0 && won == 1 && key(f) == lastf
  ensures [name] err == nil ==> name0 == join2(dir, baseof(name0))
  ensures [recognised] err == nil ==> recR(baseof(name0))
verify (fsutil.TempFilePolicyRandom).Mkdir(p, fsys, target, perm) (f, dir, err)
  ensures [dir] err == nil ==> dir == dirof(clean(target)) && mkdirs >= 1 && opens == 0 && won == 1 && key(f) == lastf && name0 == mkname
  ensures [name] err == nil ==> name0 == join2(dir, baseof(name0))
  ensures [recognised] err == nil ==> recR(baseof(name0))
verify (fsutil.TempFilePolicyDir).Create(p, fsys, target, perm) (f, dir, err)
  ensures [dir] err == nil ==> dir == p.tempDir && opens >= 1 && won == 1 && key(f) == lastf
  ensures [name] err == nil ==> name0 == join2(ite(dir == "", "./", dir), rnd + ".tmp") && len(rnd) == 10 && digits(rnd)
  ensures [recognised] err == nil ==> recD(baseof(name0))
verify (fsutil.TempFilePolicyDir).Mkdir(p, fsys, target, perm) (f, dir, err)
  ensures [dir] err == nil ==> dir == p.tempDir && mkdirs >= 1 && opens == 0 && won == 1 && key(f) == lastf && name0 == mkname
  ensures [name] err == nil ==> name0 == join2(ite(dir == "", "./", dir), rnd + ".tmp") && len(rnd) == 10 && digits(rnd)
  ensures [recognised] err == nil ==> recD(baseof(name0))
verify (fsutil.TempFilePolicyRandom).WalkFunc(p, fsys, path, d, werr) (err)
  ensures [own_only] removes > 0 ==> removes == 1 && removed == path && recR(baseof(path)) && werr == nil
  ensures [removed] werr == nil && recR(baseof(path)) ==> removes == 1
  ensures [nothing_made] opens == 0 && mkdirs == 0
verify (fsutil.TempFilePolicyDir).WalkFunc(p, fsys, path, d, werr) (err)
  ensures [own_only] removes > 0 ==> removes == 1 && removed == path && recD(baseof(path)) && under(clean(p.tempDir), clean(path)) && werr == nil
  ensures [nothing_made] opens == 0 && mkdirs == 0
