"""Time and channel averaging, from the documentation."""
import numpy as np


def duplicate(time, ant1, ant2):
    """some (time, baseline) pair occurs twice"""
    n = time.shape[0]
    dup = 0
    for r in range(n):
        for q in range(n):
            if q < r and time[q] == time[r] and ant1[q] == ant1[r] and ant2[q] == ant2[r]:
                dup = dup + 1
    return dup > 0


def row_mapper(time, interval, ant1, ant2, flag_row=None, time_bin_secs=1):
    if duplicate(time, ant1, ant2):
        raise ValueError("duplicate")
    n = time.shape[0]
    ubl, bl_first, bl_of, _ = np.unique(ant1 + 4294967296 * ant2, return_index=True, return_inverse=True, return_counts=True)
    utime, _, t_of, _ = np.unique(time, return_index=True, return_inverse=True, return_counts=True)
    nbl = ubl.shape[0]
    ntime = utime.shape[0]
    row_of = np.zeros((nbl, ntime), np.int64)
    there = np.zeros((nbl, ntime), np.bool_)
    for r in range(n):
        row_of[bl_of[r], t_of[r]] = r
        there[bl_of[r], t_of[r]] = True
    # consecutive samples of a baseline share a bin while its extent is within the limit
    bin_of = np.zeros((nbl, ntime), np.int64)
    tsum = np.zeros((nbl, ntime), np.float64)
    isum = np.zeros((nbl, ntime), np.float64)
    count = np.zeros((nbl, ntime), np.int64)
    good = np.zeros((nbl, ntime), np.int64)
    for b in range(nbl):
        k = -1
        low = 0.0
        for t in range(ntime):
            if there[b, t]:
                r = row_of[b, t]
                half = interval[r] / 2
                if k < 0 or time[r] + half - low > time_bin_secs:
                    k = k + 1
                    low = time[r] - half
                bin_of[b, t] = k
                tsum[b, k] += time[r]
                isum[b, k] += interval[r]
                count[b, k] += 1
                if flag_row is None:
                    good[b, k] += 1
                elif flag_row[r] == 0:
                    good[b, k] += 1
    # output rows: bins in ascending (mean time, baseline) order
    nbins = 0
    for b in range(nbl):
        for k in range(ntime):
            if count[b, k] > 0:
                nbins = nbins + 1
    mean = np.zeros((nbl, ntime), np.float64)
    for b in range(nbl):
        for k in range(ntime):
            if count[b, k] > 0:
                mean[b, k] = tsum[b, k] / count[b, k]
            else:
                mean[b, k] = np.finfo(time.dtype).max
    flat = mean.ravel()
    order = np.argsort(flat, kind="mergesort")
    place = np.zeros(nbl * ntime, np.int64)
    for i in range(nbl * ntime):
        place[order[i]] = i
    row_map = np.zeros(n, np.uint32)
    for r in range(n):
        row_map[r] = place[bl_of[r] * ntime + bin_of[bl_of[r], t_of[r]]]
    out_time = np.zeros(nbins, np.float64)
    out_int = np.zeros(nbins, np.float64)
    fi = isum.ravel()
    for i in range(nbins):
        out_time[i] = flat[order[i]]
        out_int[i] = fi[order[i]]
    if flag_row is None:
        return row_map, out_time, out_int, None
    out_flag = np.zeros(nbins, flag_row.dtype)
    fg = good.ravel()
    for i in range(nbins):
        out_flag[i] = 1 if fg[order[i]] == 0 else 0
    return row_map, out_time, out_int, out_flag


def unique(data):
    """sorted distinct values, first positions, inverse and counts"""
    return np.unique(data, return_index=True, return_inverse=True, return_counts=True)


def unique_baselines(ant1, ant2):
    u, idx, inv, cnt = np.unique(ant1 + 4294967296 * ant2, return_index=True, return_inverse=True, return_counts=True)
    out = np.zeros((u.shape[0], 2), np.int32)
    for i in range(u.shape[0]):
        out[i, 0] = ant1[idx[i]]
        out[i, 1] = ant2[idx[i]]
    return out, idx, inv, cnt


def channel_mapper(nchan, size):
    m = np.zeros(nchan, np.uint32)
    for c in range(nchan):
        m[c] = c // size
    return m, (nchan + size - 1) // size


def all_flagged(flag, r):
    bad = 0
    for f in range(flag.shape[1]):
        for c in range(flag.shape[2]):
            if flag[r, f, c] == 0:
                bad = bad + 1
    return bad == 0


def merge_both(flag_row, flag):
    for r in range(flag.shape[0]):
        if (flag_row[r] != 0) != all_flagged(flag, r):
            raise ValueError("mismatch")
    return flag_row


def merge_flag(flag_row, flag):
    out = np.zeros(flag.shape[0], flag.dtype)
    for r in range(flag.shape[0]):
        out[r] = 1 if all_flagged(flag, r) else 0
    return out


def merge_row(flag_row, flag):
    return flag_row


def merge_none(flag_row, flag):
    return None


def used(flag_row, out_flag, r, o):
    """a sample counts only towards a bin of the same flagging"""
    return flag_row is None or (flag_row[r] != 0) == (out_flag[o] != 0)


def total(x, rmap, flag_row, out_flag, n_out):
    out = np.zeros((n_out,) + x.shape[1:], x.dtype)
    for r in range(x.shape[0]):
        if used(flag_row, out_flag, r, rmap[r]):
            out[rmap[r]] += x[r]
    return out


def number(rmap, flag_row, out_flag, n_out):
    out = np.zeros(n_out, np.int64)
    for r in range(rmap.shape[0]):
        if used(flag_row, out_flag, r, rmap[r]):
            out[rmap[r]] += 1
    return out


def mean(x, rmap, flag_row, out_flag, n_out):
    t = total(x, rmap, flag_row, out_flag, n_out)
    n = number(rmap, flag_row, out_flag, n_out)
    if len(x.shape) > 1:
        return t / n[:, None]
    return t / n


def row_average(meta, ant1, ant2, flag_row=None, time_centroid=None, exposure=None, uvw=None, weight=None, sigma=None):
    rmap, n_out, of = meta.map, meta.time.shape[0], meta.flag_row
    a1 = np.zeros(n_out, ant1.dtype)
    a2 = np.zeros(n_out, ant2.dtype)
    for r in range(rmap.shape[0]):
        a1[rmap[r]] = ant1[r]
        a2[rmap[r]] = ant2[r]
    tc = None if time_centroid is None else mean(time_centroid, rmap, flag_row, of, n_out)
    ex = None if exposure is None else total(exposure, rmap, flag_row, of, n_out)
    uv = None if uvw is None else mean(uvw, rmap, flag_row, of, n_out)
    wt = None if weight is None else total(weight, rmap, flag_row, of, n_out)
    sg = None
    if sigma is not None:
        # error of the weighted mean
        if weight is None:
            s = total(sigma ** 2, rmap, flag_row, of, n_out)
            n = number(rmap, flag_row, of, n_out)
            sg = np.sqrt(s) / n[:, None]
        else:
            s = total(sigma ** 2 * weight ** 2, rmap, flag_row, of, n_out)
            sg = np.sqrt(s) / wt
    return a1, a2, tc, ex, uv, wt, sg


def chan_average(meta, chan_freq=None, chan_width=None, effective_bw=None, resolution=None):
    cmap, n_out = meta
    out = []
    for k, x in enumerate((chan_freq, chan_width, effective_bw, resolution)):
        if x is None:
            out.append(None)
            continue
        t = np.zeros(n_out, x.dtype)
        n = np.zeros(n_out, np.int64)
        for c in range(cmap.shape[0]):
            t[cmap[c]] += x[c]
            n[cmap[c]] += 1
        out.append(t / n if k == 0 else t)
    return tuple(out)


def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None, vis=None, flag=None, weight_spectrum=None, sigma_spectrum=None):
    rmap, n_out, of = row_meta.map, row_meta.time.shape[0], row_meta.flag_row
    cmap, n_chan = chan_meta
    ref = vis if vis is not None else flag if flag is not None else weight_spectrum if weight_spectrum is not None else sigma_spectrum
    n_corr = ref.shape[2]
    shape = (n_out, n_chan, n_corr)
    good = np.zeros(shape, np.int64)
    for r in range(rmap.shape[0]):
        for f in range(cmap.shape[0]):
            for c in range(n_corr):
                if used(flag_row, of, r, rmap[r]):
                    if flag is None or flag[r, f, c] == 0:
                        good[rmap[r], cmap[f], c] += 1
    vs = np.zeros(shape, np.complex128)
    ws = np.zeros(shape, np.float64)
    ss = np.zeros(shape, np.float64)
    n = np.zeros(shape, np.float64)
    for r in range(rmap.shape[0]):
        for f in range(cmap.shape[0]):
            for c in range(n_corr):
                # unflagged samples only, unless the bin has none
                if used(flag_row, of, r, rmap[r]):
                    if flag is None or (flag[r, f, c] != 0) == (good[rmap[r], cmap[f], c] == 0):
                        if weight_spectrum is not None:
                            w = weight_spectrum[r, f, c]
                        elif weight is not None:
                            w = weight[r, c]
                        else:
                            w = 1
                        if vis is not None:
                            vs[rmap[r], cmap[f], c] += w * vis[r, f, c]
                        if sigma_spectrum is not None:
                            ss[rmap[r], cmap[f], c] += w ** 2 * sigma_spectrum[r, f, c] ** 2
                        ws[rmap[r], cmap[f], c] += w
    return (None if vis is None else vs / ws, None if flag is None else good == 0,
            None if weight_spectrum is None else ws, None if sigma_spectrum is None else np.sqrt(ss) / ws)


def value_error(*args):
    raise ValueError("invalid")


class Meta:
    def __init__(self, parts):
        self.map, self.time, self.interval, self.flag_row = parts


def time_and_channel(time, interval, antenna1, antenna2, time_centroid=None, exposure=None, flag_row=None, uvw=None, weight=None,
                     sigma=None, chan_freq=None, chan_width=None, effective_bw=None, resolution=None, vis=None, flag=None,
                     weight_spectrum=None, sigma_spectrum=None, time_bin_secs=1.0, chan_bin_size=1):
    if flag is not None:
        flag_row = merge_flag(None, flag) if flag_row is None else merge_both(flag_row, flag)
    ref = [x.shape[1] for x in (vis, flag, weight_spectrum, sigma_spectrum) if x is not None]
    ref += [x.shape[0] for x in (chan_freq, chan_width, effective_bw, resolution) if x is not None]
    meta = Meta(row_mapper(time, interval, antenna1, antenna2, flag_row, time_bin_secs))
    cmeta = channel_mapper(ref[0] if ref else 0, chan_bin_size)
    rows = row_average(meta, antenna1, antenna2, flag_row, time_centroid, exposure, uvw, weight, sigma)
    chans = chan_average(cmeta, chan_freq, chan_width, effective_bw, resolution)
    both = (None, None, None, None)
    if vis is not None or flag is not None or weight_spectrum is not None or sigma_spectrum is not None:
        both = row_chan_average(meta, cmeta, flag_row, weight, vis, flag, weight_spectrum, sigma_spectrum)
    return (meta.time, meta.interval, meta.flag_row) + rows + chans + both
