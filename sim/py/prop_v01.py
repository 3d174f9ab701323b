"""V01: the verifier passes a bitstream only if every step really succeeded.

Runs the real validation/iamf_verifier and validation/mlsd_comparator. Every
external tool is a simulated process (subprocess.Popen is the seam) that works
on the files it is given and may fail at any drawn point.
"""
import builtins
import contextlib
import io
import json
import os
import re
import struct
import subprocess
import sys
import tempfile
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simcore  # noqa: E402
from simcore import Violation  # noqa: E402

import numpy as np  # noqa: E402
import librosa  # noqa: E402
from absl import flags, logging  # noqa: E402
from validation.iamf_verifier import iamf_verifier  # noqa: E402
from validation.mlsd_comparator import mlsd_comparator  # noqa: E402

REAL_OPEN = builtins.open
REAL_POPEN = subprocess.Popen
LAYOUTS = ('7.1.4', '2.0', 'Binaural')
MAGIC = b'SIMIAMF1'


# ---------------------------------------------------------------- audio ----
def tone(seed, frames, channels, width):
  """Deterministic audio of a seed: noise with a level per channel."""
  rng = np.random.default_rng(seed)
  peak = float(2 ** (8 * width - 1) - 1)
  x = rng.standard_normal((frames, channels)) * 0.1
  return np.clip(np.round(x * peak), -peak, peak).astype(np.int64)


def make_wav(data, width, rate):
  frames, channels = data.shape
  if width == 2:
    raw = data.astype('<i2').tobytes()
  elif width == 4:
    raw = data.astype('<i4').tobytes()
  else:
    b = data.astype('<i4').reshape(-1).view(np.uint8).reshape(-1, 4)
    raw = b[:, :3].tobytes()
  fmt = struct.pack('<HHIIHH', 1, channels, rate, rate * channels * width, channels * width, 8 * width)
  body = b'WAVE' + b'fmt ' + struct.pack('<I', 16) + fmt + b'data' + struct.pack('<I', len(raw)) + raw
  return b'RIFF' + struct.pack('<I', len(body)) + body


def model_mlsd(ref, test, width, rate):
  """Independent restatement of the per-frame distance; list per channel."""
  full = float(2 ** (8 * width - 1) - 1) if width != 3 else float((2 ** 31 - 1) / 256)
  out = []
  for c in range(ref.shape[1]):
    spec = []
    for d in (ref, test):
      m = librosa.feature.melspectrogram(y=d[:, c] / full, sr=rate, n_fft=2048, hop_length=512)
      spec.append(10 * np.log10(m + 1e-4))
    out.append(np.sqrt(((spec[0] - spec[1]) ** 2).mean(axis=0)).reshape(-1))
  return out


def model_evaluate(dist, peak, sustained, sustained_ms, rate):
  """(anomaly descriptions, max peak, max sustained, ambiguous)."""
  hop_ms = 512 / rate * 1000.0
  anomalies = []
  mp = ms = 0.0
  amb = False
  for c, d in enumerate(dist):
    for t in (peak, sustained):
      if np.any(np.abs(d - t) < 1e-6 + 1e-4 * t):
        amb = True
    mp = max(mp, float(d.max()))
    for i, x in enumerate(d):
      if x > peak:
        anomalies.append(('Transient Glitch', c, i, i))
    need = max(1, int(np.ceil(sustained_ms / hop_ms)))
    if abs(sustained_ms / hop_ms - round(sustained_ms / hop_ms)) < 1e-6:
      amb = True
    if len(d) >= need:
      ms = max(ms, max(float(d[i:i + need].min()) for i in range(len(d) - need + 1)))
    else:
      ms = max(ms, float(d.min()))
    i = 0
    while i < len(d):
      if d[i] > sustained:
        j = i
        while j < len(d) and d[j] > sustained:
          j += 1
        if j - i >= need:
          anomalies.append(('Sustained Degradation', c, i, j - 1))
        i = j
      else:
        i += 1
  return anomalies, mp, ms, amb


def vary(ctx, ref, width):
  """Draws the test signal belonging to a reference; returns (kind, data)."""
  peak = 2 ** (8 * width - 1) - 1
  kind = ctx.one_of(['same', 'same', 'same', 'lsb', 'click', 'gain', 'last-channel', 'tail', 'shorter', 'longer', 'other',
                     'silence', 'swap'])
  d = ref.copy()
  n, c = d.shape
  if kind == 'lsb':
    d = np.clip(d + np.where((np.arange(n * c).reshape(n, c) % 3) == 0, 1, 0), -peak, peak)
  elif kind == 'click':
    d[ctx.pick(n), ctx.pick(c)] = peak
  elif kind == 'gain':
    d = np.round(d * (1.0 - 0.01 * (1 + ctx.pick(20)))).astype(np.int64)
  elif kind == 'last-channel':
    d[:, c - 1] = tone(999, n, 1, width)[:, 0]
  elif kind == 'tail':
    k = max(1, n // (2 + ctx.pick(6)))
    d[n - k:] = tone(998, k, c, width)
  elif kind == 'shorter':
    d = d[:max(1, n - 1 - ctx.pick(700))]
  elif kind == 'longer':
    d = np.concatenate([d, np.zeros((1 + ctx.pick(700), c), dtype=np.int64)])
  elif kind == 'other':
    d = tone(997, n, c, width)
  elif kind == 'silence':
    d = np.zeros_like(d)
  elif kind == 'swap' and c > 1:
    d = d[:, ::-1].copy()
  return kind, d


# ------------------------------------------------------- simulated processes --
class World:
  """Everything outside the verifier: files, tools and faults of one run."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.calls = []
    self.faults_left = 0
    self.disk_full_at = None  # number of output files after which the disk is full
    self.outputs = 0
    self.open_faults = set()
    self.in_tool = 0
    self.decodes = 0
    self.tainted = set()   # cases whose outcome a fault made false
    self.spawn_failed = False
    self.partial_ids = False
    self.mute = None       # (kind, from call) the decoder stops producing output, also for good

  def write(self, path, data):
    """A tool writes an output file: complete unless the disk is full."""
    self.outputs += 1
    if self.disk_full_at is not None and self.outputs > self.disk_full_at:
      cut = self.disk_keep if self.disk_keep < len(data) else max(0, len(data) - 400)
      self.ctx.fault('disk-full')
      data = data[:cut]
      self.put(path, data)
      return False
    self.put(path, data)
    return True

  @staticmethod
  def put(path, data):
    with REAL_OPEN(path, 'wb') as f:
      f.write(data)

  def tool_fault(self, kinds):
    if self.faults_left > 0 and self.ctx.chance(1, 5):
      self.faults_left -= 1
      k = self.ctx.one_of(kinds)
      self.ctx.fault(k)
      return k
    return None


def arg_value(argv, name):
  for i, a in enumerate(argv):
    if a == '--' + name or a == '-' + name:
      return argv[i + 1]
    if a.startswith('--' + name + '='):
      return a.split('=', 1)[1]
  return None


def load_sim(path):
  with REAL_OPEN(path, 'rb') as f:
    b = f.read()
  if not b.startswith(MAGIC) or not b.endswith(b'END'):
    return None
  return json.loads(b[len(MAGIC):-3])


class Sim:
  """Stands in for subprocess.Popen."""
  world = None

  def __init__(self, args, stdout=None, stderr=None, text=None, **kw):
    w = Sim.world
    if isinstance(args, str):
      args = args.split()
    self.args = args
    self.pid = 4242
    name = os.path.basename(args[0])
    if name not in TOOLS:
      raise FileNotFoundError(2, 'no such tool', args[0])
    f = w.tool_fault(['spawn-fails']) if w.ctx.chance(1, 12) else None
    if f:
      w.spawn_failed = True
      raise OSError(12, 'Cannot allocate memory', args[0])
    w.in_tool += 1
    try:
      rc, out = TOOLS[name](w, list(args))
    finally:
      w.in_tool -= 1
    w.ctx.note(f'{name} -> {rc}')
    w.calls.append((name, rc))
    self._rc = rc
    self.returncode = None
    as_text = text or kw.get('universal_newlines') or kw.get('encoding')
    conv = (lambda s: s) if as_text else (lambda s: s.encode())
    err = ''
    self._out = self._err = None
    if stdout == subprocess.PIPE:
      self._out = conv(out)
    if stderr == subprocess.PIPE:
      self._err = conv(err)
    mk = io.StringIO if as_text else io.BytesIO
    self.stdout = mk(self._out) if self._out is not None else None
    self.stderr = mk(self._err) if self._err is not None else None
    self.stdin = None
    if stdout is not None and hasattr(stdout, 'write'):
      stdout.write(out)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.wait()

  def communicate(self, input=None, timeout=None):
    self.wait()
    return self._out, self._err

  def wait(self, timeout=None):
    self.returncode = self._rc
    return self._rc

  def poll(self):
    return self.wait()

  def kill(self):
    pass

  terminate = kill


GENERIC = ['exit-1-nothing-done', 'exit-1-after-work', 'killed-midway', 'exit-0-nothing-done']


def tool_cw(w, argv):
  spec = arg_value(argv, 's')
  path = argv[-1]
  f = w.tool_fault(['exit-1-nothing-done', 'killed-midway', 'exit-139'])
  sim = load_sim(path)
  if f:
    w.tainted.add('cw')
    return {'killed-midway': -9, 'exit-139': 139}.get(f, 1), 'cw: failure\n'
  want = 'iamf_isobmff' if sim and sim['container'] == 'mp4' else 'iamf'
  if sim is None or spec != want or not sim['compliant']:
    return 1, 'rule 1 violated\n'
  return 0, 'no errors\n'


def tool_gpac(w, argv):
  src, dst = arg_value(argv, 'i'), arg_value(argv, 'o')
  sim = load_sim(src)
  f = w.tool_fault(GENERIC + ['exit-0-truncated-output'])
  if sim is None or sim['container'] != 'mp4':
    return 1, 'gpac: not an mp4\n'
  out = MAGIC + json.dumps(dict(sim, container='iamf')).encode() + b'END'
  if f:
    w.tainted.add('gpac')
  if f == 'exit-1-nothing-done':
    return 1, 'gpac-said-why\n'
  if f == 'exit-0-nothing-done':
    return 0, 'gpac-said-why\n'
  if f in ('killed-midway', 'exit-0-truncated-output'):
    w.put(dst, out[:len(out) // 2])
    return (-11 if f == 'killed-midway' else 0), 'gpac-said-why\n'
  if not w.write(dst, out):
    w.tainted.add('gpac')
    return 0, 'gpac-said-why\n'
  return (1 if f else 0), 'gpac-said-why\n'


def loudness_report(a, b, tol):
  ok = True
  lines = []
  for m, x in a['mixes'].items():
    lines.append(f'Comparing Mix Presentation ID: {m}')
    if m not in b['mixes']:
      lines.append('  Result: Not found in File 2')
      ok = False
      continue
    d = abs(x['loudness'] - b['mixes'][m]['loudness']) / 256.0
    lines.append('  Sub-mix 0 Layout 0 Result: ' + ('Within Tolerance' if d <= tol else 'Out of Tolerance'))
    ok = ok and d <= tol
  for m in b['mixes']:
    if m not in a['mixes']:
      lines += [f'Comparing Mix Presentation ID: {m}', '  Result: Not found in File 1']
      ok = False
  return ok, '\n'.join(lines) + '\n'


def tool_loudness(w, argv):
  a, b = load_sim(arg_value(argv, 'file1')), load_sim(arg_value(argv, 'file2'))
  tol = float(arg_value(argv, 'tolerance'))
  dst = arg_value(argv, 'report_file')
  f = w.tool_fault(GENERIC + ['exit-0-truncated-output', 'exit-0-empty-output'])
  if f:
    w.tainted.add('loudness')
    if f != 'exit-1-after-work':
      w.partial_ids = True
  if f == 'exit-1-nothing-done':
    return 1, 'loudness: failed\n'
  if f == 'exit-0-nothing-done':
    return 0, 'loudness: done\n'
  if f == 'exit-0-empty-output':
    w.put(dst, b'')
    return 0, 'loudness: done\n'
  if a is None or b is None or a['container'] != 'iamf' or b['container'] != 'iamf':
    w.put(dst, b'')
    return -6, 'loudness: error parsing\n'
  ok, body = loudness_report(a, b, tol)
  last = '\nOverall Result: ' + ('Within Tolerance' if ok else 'Out of Tolerance') + '\n'
  if f in ('killed-midway', 'exit-0-truncated-output'):
    w.put(dst, (body + last).encode()[:w.ctx.pick(len(body + last) - 1)])
    return (-9 if f == 'killed-midway' else 0), 'loudness: done\n'
  full = (body + last).encode()
  if w.disk_full_at is not None:
    w.disk_keep = min(w.disk_keep0, len(body + last) - 2)
  if not w.write(dst, full):
    w.tainted.add('loudness')
    w.partial_ids = True
  return (1 if f or not ok else 0), 'loudness: done\n'


def tool_opus(w, argv):
  sim = load_sim(arg_value(argv, 'input'))
  dst = arg_value(argv, 'report_file')
  f = w.tool_fault(GENERIC + ['exit-0-truncated-output', 'exit-0-empty-output'])
  if f:
    w.tainted.add('opus')
  if f == 'exit-1-nothing-done':
    return 1, ''
  if f == 'exit-0-nothing-done':
    return 0, ''
  if f == 'exit-0-empty-output':
    w.put(dst, b'')
    return 0, ''
  if sim is None or sim['container'] != 'iamf':
    w.put(dst, b'Failed to verify IAMF bitstream\n')
    return -6, 'opus: error\n'
  body = '[Audio Element ID: 3] Status: ' + ('CANONICAL (1OA)\n' if sim['canonical'] else 'CUSTOM (1OA)\n  Rationale: x\n')
  last = '\nResult: ' + ('All Canonical' if sim['canonical'] else 'Non-Canonical Elements Detected') + '\n'
  if sim['no_hoa']:
    body, last = '', '\nResult: No Opus Ambisonics Audio Elements found.\n'
  if f in ('killed-midway', 'exit-0-truncated-output'):
    w.put(dst, (body + last).encode()[:w.ctx.pick(len(body + last) - 1)])
    return (-9 if f == 'killed-midway' else 0), ''
  if w.disk_full_at is not None:
    w.disk_keep = min(w.disk_keep0, len(body + last) - 2)
  if not w.write(dst, (body + last).encode()):
    w.tainted.add('opus')
  # The real tool reports deviations in its report, not in its exit status.
  return (1 if f else 0), ''


def render(mix, layout):
  p = mix['layouts'][layout]
  ref = tone(p['seed'], p['frames'], p['channels'], p['width'])
  data = ref
  if 'vary' in p:
    data = VARIED[p['vary']]
  return make_wav(data, p.get('width2', p['width']), p['rate'])


VARIED = {}


def tool_decoder(w, argv):
  sim = load_sim(arg_value(argv, 'input_filename'))
  dst = arg_value(argv, 'output_filename')
  layout = arg_value(argv, 'output_layout')
  mix = arg_value(argv, 'mix_id')
  f = w.tool_fault(GENERIC + ['exit-0-truncated-output', 'exit-0-empty-output', 'exit-0-garbage-output',
                              'exit-1-after-work', 'exit-0-nothing-done'])
  w.decodes += 1
  if not f and w.mute and (w.decodes > w.mute[1] if w.mute[0] == 'after' else mix in w.mute[1]):
    f = 'exit-0-nothing-done'
    w.ctx.fault('decoder-silent-for-mix' if w.mute[0] == 'mix' else 'decoder-silent-from-call')
  if f:
    w.tainted.add(('decode', mix, layout))
  if f == 'exit-1-nothing-done':
    return 1, 'decoder: failed\n'
  if f == 'exit-0-nothing-done':
    return 0, ''
  if f == 'exit-0-empty-output':
    w.put(dst, b'')
    return 0, ''
  if f == 'exit-0-garbage-output':
    w.put(dst, b'RIFF' + bytes(range(64)))
    return 0, ''
  if sim is None or sim['container'] != 'iamf' or mix not in sim['mixes'] or layout not in LAYOUTS:
    return 1, 'decoder: cannot decode\n'
  wav = render(sim['mixes'][mix], layout)
  if f in ('killed-midway', 'exit-0-truncated-output'):
    w.put(dst, wav[:w.ctx.pick(len(wav))])
    return (-15 if f == 'killed-midway' else 0), ''
  if w.disk_full_at is not None:
    w.disk_keep = w.disk_keep0
  if not w.write(dst, wav):
    w.tainted.add(('decode', mix, layout))
  return (1 if f else 0), ''


TOOLS = {'cw.exe': tool_cw, 'gpac': tool_gpac, 'loudness': tool_loudness, 'opus_hoa': tool_opus, 'decoder': tool_decoder}


# ------------------------------------------------------------------ property --
class V01(simcore.Prop):
  id = 'V01'
  rule = ('each run draws a reference and a test bitstream (container, mixes, loudness, audio per layout), a command line and '
          'faults of the external tools, the disk and the verifier\'s own files, and runs the real verifier to its exit; or draws '
          'two WAV files and thresholds for the comparator alone; non-trivial: a fault was injected or the two inputs differ')
  real = ['validation/iamf_verifier/iamf_verifier.py', 'validation/mlsd_comparator/mlsd_comparator.py', 'librosa', 'scipy', 'wave']
  stub = ['Compliance Warden', 'gpac', 'decoder_main', 'iamf_loudness_comparator_main', 'opus_hoa_main', 'subprocess.Popen']
  assumptions = ['the simulated tools follow the exit statuses and report formats of the real ones',
                 'librosa is trusted as the mel spectrogram of the comparator and of its model']
  quick_runs = 9000
  thorough_runs = 90000
  quick_cap = 75
  thorough_cap = 780

  def warm_up(self):
    warnings.simplefilter('ignore')
    logging.set_verbosity(logging.FATAL)
    logging.use_absl_handler()
    model_mlsd(tone(1, 3000, 1, 2), tone(2, 3000, 1, 2), 2, 48000)
    try:
      d = self.scratch_root
      World.put(d + '/a.wav', make_wav(tone(1, 3000, 2, 2), 2, 48000))
      mlsd_comparator.evaluate_audio_quality(d + '/a.wav', d + '/a.wav')
    except Exception:  # pylint: disable=broad-except
      pass

  # ---- the comparator alone
  def run_comparator(self, ctx):
    rate = ctx.one_of([48000, 16000, 8000, 44100])
    width = ctx.one_of([2, 3, 4])
    n = ctx.one_of([1 + ctx.pick(600), 500 + ctx.pick(3000), 3000 + ctx.pick(9000)])
    c = 1 + ctx.pick(3)
    ref = tone(ctx.pick(50), n, c, width)
    kind, test = vary(ctx, ref, width)
    rate2 = rate
    width2 = width
    header = None
    if ctx.chance(1, 12):
      header = ctx.one_of(['rate', 'width', 'channels'])
      if header == 'rate':
        rate2 = 32000
      elif header == 'width':
        width2 = 2 if width == 4 else 4
        test = np.clip(test, -32767, 32767)
      else:
        test = np.concatenate([test, test[:, :1]], axis=1)
    peak = ctx.one_of([0.04, 0.5, 5.0, 0.01 * (1 + ctx.pick(2000))])
    sust = ctx.one_of([0.20, 2.0, 0.01 * (1 + ctx.pick(1000))])
    sms = ctx.one_of([100.0, 1.0, 35.0, 300.0, 10.0 * (1 + ctx.pick(60))])
    World.put(ctx.scratch + '/r.wav', make_wav(ref, width, rate))
    World.put(ctx.scratch + '/t.wav', make_wav(test, width2, rate2))
    ctx.note(f'comparator n={n} c={c} w={width} rate={rate} kind={kind} header={header} peak={peak} sust={sust}/{sms}')
    ctx.simtime += n / rate
    if kind != 'same' or header:
      ctx.nontrivial = True
    ctx.state(('cmp', kind, header, width, c))
    bad = header is not None or len(ref) != len(test)
    try:
      ok, anomalies, mp, ms = mlsd_comparator.evaluate_audio_quality(
          ctx.scratch + '/r.wav', ctx.scratch + '/t.wav', peak_threshold=peak, sustained_threshold=sust, sustained_ms=sms)
    except ValueError as e:
      ctx.check(bad, 'comparator-refuses', f'refused two comparable files: {e}')
      ctx.note('refused')
      return
    except Exception as e:  # pylint: disable=broad-except
      raise Violation('comparator-crash', f'{type(e).__name__}: {e}')
    ctx.check(not bad, 'comparator-accepts', f'files with different {header or "length"} were compared')
    dist = model_mlsd(ref, test, width, rate)
    want, wmp, wms, amb = model_evaluate(dist, peak, sust, sms, rate)
    got = []
    for a in anomalies:
      if a['type'] == 'Transient Glitch':
        got.append((a['type'], a['channel'], a['frame_index'], a['frame_index']))
      else:
        got.append((a['type'], a['channel'], a['start_frame'], a['end_frame']))
    ctx.note(f'ok={ok} anomalies={len(got)}')
    ctx.check(ok == (not anomalies), 'comparator-verdict', f'verdict {ok} with {len(anomalies)} anomalies')
    ctx.check(abs(mp - wmp) <= 1e-3 + 1e-3 * wmp, 'comparator-peak', f'peak {mp} instead of {wmp}')
    if not amb:
      ctx.check(abs(ms - wms) <= 1e-3 + 1e-3 * wms, 'comparator-sustained', f'sustained {ms} instead of {wms}')
      ctx.check(sorted(got) == sorted(want), 'comparator-anomalies', f'{sorted(got)[:4]} instead of {sorted(want)[:4]}')

  # ---- the verifier
  def run(self, ctx):
    if ctx.chance(1, 3):
      return self.run_comparator(ctx)
    w = World(ctx)
    VARIED.clear()
    tmp = ctx.scratch + '/tmp'
    os.mkdir(tmp)
    os.mkdir(ctx.scratch + '/bin')
    mp4 = ctx.chance(1, 4)
    opus = ctx.chance(1, 2)
    nmix = ctx.one_of([1, 1, 2, 3, 0])
    ids = []
    for _ in range(nmix):
      i = ctx.one_of([1, 42, 7, 1000 + ctx.pick(9), 0])
      if str(i) not in ids:
        ids.append(str(i))
    ref = {'container': 'iamf', 'compliant': True, 'canonical': True, 'no_hoa': False, 'mixes': {}}
    test = {'container': 'mp4' if mp4 else 'iamf', 'compliant': not ctx.chance(1, 8), 'canonical': not ctx.chance(1, 6),
            'no_hoa': False, 'mixes': {}}
    if not test['canonical'] and not opus:
      test['canonical'] = True
    if test['canonical'] and ctx.chance(1, 5):
      test['no_hoa'] = True
    truth = {}
    differs = False
    for i in ids:
      where = ctx.one_of(['both'] * 8 + ['ref', 'test'])
      l1 = ctx.pick(4096) - 4096
      dl = ctx.one_of([0, 0, 0, 25, -25, 26, -26, 100, -300])
      lay = {}
      lay2 = {}
      for name in LAYOUTS:
        p = {'seed': ctx.pick(40), 'frames': ctx.one_of([1 + ctx.pick(500), 600 + ctx.pick(2000)]),
             'channels': 1 + ctx.pick(2), 'width': ctx.one_of([2, 3, 4]), 'rate': 48000}
        lay[name] = p
        q = dict(p)
        lay2[name] = q
        verdict = True
        if ctx.chance(1, 6):
          base = tone(p['seed'], p['frames'], p['channels'], p['width'])
          kind, data = vary(ctx, base, p['width'])
          key = f'{i}/{name}'
          VARIED[key] = data
          q['vary'] = key
          ctx.note(f'mix {i} layout {name}: test differs ({kind})')
          ctx.state(('vary', kind))
          differs = differs or kind != 'same'
          if data.shape != base.shape:
            verdict = False
          else:
            dist = model_mlsd(base, data, p['width'], p['rate'])
            m = max(float(d.max()) for d in dist)
            verdict = None if abs(m - 0.04) < 0.001 else m <= 0.04
          if ctx.chance(1, 6):
            what = ctx.one_of(['rate', 'width2'])
            if what == 'rate':
              q['rate'] = 44100
            elif p['width'] != 2:
              q['width2'] = 2
              VARIED[key] = np.clip(data, -32767, 32767)
            else:
              q['width2'] = 4
            verdict = False
        truth[(i, name)] = verdict and where == 'both' if verdict is not None else (None if where == 'both' else False)
      if where != 'test':
        ref['mixes'][i] = {'loudness': l1, 'layouts': lay}
      if where != 'ref':
        test['mixes'][i] = {'loudness': l1 + dl, 'layouts': lay2}
      if where != 'both' or dl:
        differs = True
    rp = ctx.scratch + '/reference.iamf'
    tp = ctx.scratch + '/candidate' + ('.mp4' if mp4 else '.iamf')
    World.put(rp, MAGIC + json.dumps(ref).encode() + b'END')
    World.put(tp, MAGIC + json.dumps(test).encode() + b'END')
    loud_ok, _ = loudness_report(ref, test, 0.1)
    all_ids = list(ref['mixes']) + [m for m in test['mixes'] if m not in ref['mixes']]

    missing = ctx.one_of(['cw.exe', 'decoder', 'loudness', 'opus_hoa', 'gpac']) if ctx.chance(1, 15) else None
    for t in TOOLS:
      if t != missing:
        World.put(f'{ctx.scratch}/bin/{t}', b'#!sim\n')
        os.chmod(f'{ctx.scratch}/bin/{t}', 0o755)
    need = ['cw.exe', 'decoder', 'loudness'] + (['opus_hoa'] if opus else []) + (['gpac'] if mp4 else [])
    w.faults_left = ctx.one_of([0, 1, 1, 2])
    if ctx.chance(1, 10):
      w.disk_full_at = ctx.pick(8)
      w.disk_keep0 = w.disk_keep = ctx.one_of([0, 10, 44, 60 + ctx.pick(3000)])
    if ctx.chance(1, 8) and all_ids:  # a fault that lasts: the same mix, or everything from some call on
      w.mute = ('after', ctx.pick(6 * len(all_ids))) if ctx.chance(1, 2) else ('mix', [ctx.one_of(all_ids)])
      w.faults_left = 0
    report_mode = ctx.one_of(['file', 'file', 'none', 'no-dir', 'open-fails'])
    report_path = {'none': '', 'no-dir': ctx.scratch + '/nowhere/report.txt'}.get(report_mode, ctx.scratch + '/report.txt')
    if report_mode == 'file' and ctx.chance(1, 2):
      World.put(report_path, b'OVERALL RESULT: PASS\n' * 50)  # a stale report of an earlier run
    mkdir_fails = 1 + ctx.pick(4) if ctx.chance(1, 20) else 0
    read_fails = ctx.one_of(['loudness_report', 'opus_hoa_report', '.wav']) if ctx.chance(1, 20) else None
    argv = ['verifier', '--verbosity=-3', f'--ref_file={rp}', f'--test_file={tp}', f'--report_file={report_path}']
    for flag, t in (('cw_cmd', 'cw.exe'), ('decoder_cmd', 'decoder'), ('loudness_cmd', 'loudness'), ('gpac_cmd', 'gpac')):
      argv.append(f'--{flag}={ctx.scratch}/bin/{t}')
    if opus:
      argv.append(f'--opus_hoa_cmd={ctx.scratch}/bin/opus_hoa')
    ctx.note(f'mp4={mp4} opus={opus} ids={all_ids} missing={missing} report={report_mode}')

    own_fault = []

    def sim_open(file, mode='r', *a, **k):
      if not w.in_tool and isinstance(file, (str, os.PathLike)) and str(file).startswith(ctx.scratch):
        s = str(file)
        if 'w' in mode and s == report_path and report_mode == 'open-fails':
          ctx.fault('report-write-fails')
          raise OSError(28, 'No space left on device', s)
        if 'w' not in mode and read_fails and read_fails in s:
          ctx.fault('read-back-fails')
          own_fault.append('read')
          raise OSError(5, 'Input/output error', s)
      return REAL_OPEN(file, mode, *a, **k)

    real_mkdir = os.mkdir
    mk = [0]

    def sim_mkdir(path, *a, **k):
      if str(path).startswith(tmp):
        mk[0] += 1
        if mk[0] == mkdir_fails:
          ctx.fault('temporary-directory-fails')
          own_fault.append('mkdir')
          raise OSError(28, 'No space left on device', path)
      return real_mkdir(path, *a, **k)

    F = flags.FLAGS
    for m in iamf_verifier.__dict__.values():
      if isinstance(m, flags.FlagHolder):
        F[m.name].unparse()
    F.unparse_flags()
    out = io.StringIO()
    outcome = None
    err = ''
    Sim.world = w
    old_tmp, old_cwd = tempfile.tempdir, os.getcwd()
    tempfile.tempdir = tmp
    subprocess.Popen = Sim
    builtins.open = sim_open
    os.mkdir = sim_mkdir
    os.chdir(ctx.scratch)
    try:
      with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        rest = F(argv)
        iamf_verifier.main(rest)
      outcome = 0
    except SystemExit as e:
      outcome = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
    except Exception as e:  # pylint: disable=broad-except
      outcome = 'raised'
      err = f'{type(e).__name__}: {e}'
    finally:
      subprocess.Popen = REAL_POPEN
      builtins.open = REAL_OPEN
      os.mkdir = real_mkdir
      tempfile.tempdir = old_tmp
      os.chdir(old_cwd)
      Sim.world = None
    text = out.getvalue()
    ctx.note(f'outcome={outcome} {err.split(":")[0]}')
    ctx.nontrivial = bool(ctx.faults) or differs
    ctx.count('tool_processes', len(w.calls))
    ctx.simtime += sum(c[0] == 'decoder' for c in w.calls) * 0.03

    # What must come out.
    t = w.tainted
    gp_bad = 'gpac' in t
    cw = test['compliant'] and 'cw' not in t
    loud = loud_ok and 'loudness' not in t and not gp_bad
    opus_ok = (test['canonical'] or test['no_hoa']) and 'opus' not in t and not gp_bad
    cases = {(m, l): (False if ('decode', m, l) in t or gp_bad else truth[(m, l)]) for m in all_ids for l in LAYOUTS}
    if 'read' in own_fault:
      cases = {k: None if v else v for k, v in cases.items()}
    verdicts = [cw, loud] + ([opus_ok] if opus else []) + (list(cases.values()) if all_ids else [False])
    must_fail = missing in need or w.spawn_failed or own_fault or gp_bad or any(v is False for v in verdicts)
    must_pass = not must_fail and all(verdicts)

    leftovers = os.listdir(tmp)
    ctx.check(not leftovers, 'temporary-left', f'{leftovers} left in the temporary directory')
    ctx.check(outcome != 0 or not must_fail, 'false-pass', f'exit status 0 although a step failed (tainted {sorted(map(str, t))}, '
              f'cw={cw} loudness={loud} opus={opus_ok} cases={[k for k, v in cases.items() if v is False]} own={own_fault} missing={missing})')
    ctx.check(outcome == 0 or not must_pass, 'false-fail', f'outcome {outcome} {err} although every step succeeded')
    said_pass = 'OVERALL RESULT: PASS' in text
    said_fail = 'OVERALL RESULT: FAIL' in text
    if outcome == 'raised':
      ctx.check(not said_pass, 'pass-then-error', 'a pass was printed before the verifier raised an error')
      ctx.check(missing in need or w.spawn_failed or own_fault or gp_bad or mp4 and not w.calls, 'no-report',
                f'no verdict and no report: {err}')
      if gp_bad and not own_fault and not w.spawn_failed and missing not in need and err.startswith('RuntimeError'):
        ctx.check('gpac-said-why' in err, 'no-explanation', f'the output of the failing tool is not reported: {err[:80]!r}')
      return
    ctx.check(missing not in need, 'missing-tool', f'{missing} does not exist but a verdict was given')
    ctx.check(said_pass != said_fail, 'report-overall', 'the report states no single overall result')
    ctx.check(said_pass == (outcome == 0), 'report-status', f'exit status {outcome} with overall PASS={said_pass}')
    entries = [l for l in text.splitlines() if l.startswith('[PASS]') or l.startswith('[FAIL]')]
    seen = {}
    for l in entries:
      ok = l.startswith('[PASS]')
      m = re.search(r'Mix ID=(\d+)', l)
      lay = [x for x in LAYOUTS if x in l]
      key = (m.group(1), lay[0]) if m and lay else 'opus' if 'Opus' in l else 'loudness' if 'oudness' in l else \
          'cw' if 'Compliance' in l else 'nomix'
      ctx.check(key not in seen, 'report-duplicate', f'{key} is listed twice')
      seen[key] = ok
    ctx.check(all(seen.values()) == said_pass, 'report-consistent', f'entries {seen} with overall PASS={said_pass}')
    want = {'cw': cw, 'loudness': loud}
    if opus:
      want['opus'] = opus_ok
    if not w.partial_ids:
      if not all_ids or gp_bad:
        want['nomix'] = False
      else:
        want.update(cases)
    for k, v in want.items():
      if gp_bad and k == 'nomix':
        continue
      ctx.check(k in seen, 'report-missing', f'{k} is not in the report')
      ctx.check(v is None or seen[k] == v, 'report-entry', f'{k} reported as {seen[k]}, was {v}')
    extra = [k for k in seen if k not in want]
    if not w.partial_ids and not gp_bad:
      ctx.check(not extra, 'report-extra', f'{extra} were not to be checked')
    for k in extra:
      if k in cases:
        ctx.check(cases[k] is None or seen[k] == cases[k], 'report-entry', f'{k} reported as {seen[k]}, was {cases[k]}')
    ctx.state((mp4, opus, len(all_ids), outcome, tuple(sorted(str(x)[:6] for x in t))))
    if report_mode == 'file':
      with REAL_OPEN(report_path) as f:
        body = f.read()
      ctx.check(body.strip() == text.strip(), 'report-file', 'the report file differs from the printed report')


if __name__ == '__main__':
  simcore.main(V01())
