/*
 * P21, the files of the tools: headers of Wave and LC3 binary files, and blocks.
 *
 * The file is an array of bytes with a position: fread(), fwrite(), fseek() and
 * feof() are taken by their contract of the C library, over this array.
 */
#include "vc.h"
#include <stdio.h>
#include <stdlib.h>

#define FSIZE  96

static struct content { uint8_t b[FSIZE]; } D;
static struct file {
    long pos, size;
    bool eof;
    int nread, nwrite;
} F;

static size_t vc_fread(void *p, size_t sz, size_t n, FILE *fp)
{
    (void)fp;
    ENSURES(n == 1 || sz == 1, "fread: a single object, or bytes");
    size_t len = sz * n;
    F.nread++;
    if (F.pos < 0 || F.pos > F.size || len > (size_t)(F.size - F.pos)) { F.eof = true; F.pos = F.size; return 0; }
    for (size_t i = 0; i < FSIZE; i++)
        if (i < len) ((uint8_t *)p)[i] = D.b[F.pos + i];
    F.pos += len;
    return n;
}

static size_t vc_fwrite(const void *p, size_t sz, size_t n, FILE *fp)
{
    (void)fp;
    size_t len = sz * n;
    F.nwrite++;
    ENSURES(F.pos >= 0 && len <= FSIZE && F.pos + len <= FSIZE, "fwrite: size");
    REQUIRES(F.pos >= 0 && len <= FSIZE && F.pos + len <= FSIZE);
    for (size_t i = 0; i < FSIZE; i++)
        if (i < len) D.b[F.pos + i] = ((const uint8_t *)p)[i];
    F.pos += len;
    if (F.pos > F.size) F.size = F.pos;
    return n;
}

static int vc_fseek(FILE *fp, long off, int whence)
{
    (void)fp;
    long at = whence == SEEK_SET ? off : whence == SEEK_CUR ? F.pos + off : F.size + off;
    if (at < 0) return -1;
    F.pos = at; F.eof = false;
    return 0;
}

static int vc_feof(FILE *fp) { (void)fp; return F.eof; }

#define fread vc_fread
#define fwrite vc_fwrite
#define fseek vc_fseek
#define feof vc_feof
#include "tools/wave.c"
#include "tools/lc3bin.c"
#undef fread
#undef fwrite
#undef fseek
#undef feof

static unsigned le16(int i) { return D.b[i] | (D.b[i+1] << 8); }
static uint32_t le32(int i) { return le16(i) | ((uint32_t)le16(i+2) << 16); }
static bool is_id(int i, const char *s) { return D.b[i] == s[0] && D.b[i+1] == s[1] && D.b[i+2] == s[2] && D.b[i+3] == s[3]; }
static void set32(int i, uint32_t v) { for (int k = 0; k < 4; k++) D.b[i+k] = v >> (8*k); }
static void set16(int i, unsigned v) { for (int k = 0; k < 2; k++) D.b[i+k] = v >> (8*k); }
static FILE *const FP = (FILE *)&F;

/*
 * lc3bin_read_header, any content of file
 */
void h_lc3bin_read_header(void)
{
    IN_OBJ(D);
    IN_RANGE(size, 0, 48);
    F.size = size;
    int frame_us = -7, srate_hz = -7, nch = -7, nsamples = -7; bool hr = false;

    /* samples count of a source, a non-negative integer */
    REQUIRES(D.b[17] < 0x80);
#ifdef VC_NATIVE
    D.b[0] = 0x1c; D.b[1] = 0xcc; D.b[3] = 0; D.b[12] &= 1; D.b[13] = 0;
#endif

    int r = lc3bin_read_header(FP, &frame_us, &srate_hz, &hr, &nch, &nsamples);

    bool ok = size >= 18 && D.b[0] == 0x1c && D.b[1] == 0xcc && le16(2) >= 18 && !le16(12);
    bool ext = le16(2) >= 20;

    ENSURES(r == 0 || r == -1, "return value");
    ENSURES((r == 0) == (ok && (!ext || size >= 20)), "rejected when and only when the header is not valid");
    if (r) { REACHED("rejected"); return; }

    ENSURES(srate_hz == 100 * (int)le16(4), "samplerate");
    ENSURES(nch == (int)le16(8), "channels");
    ENSURES(frame_us == 10 * (int)le16(10), "duration");
    ENSURES(nsamples == (int)le32(14), "count of samples");
    ENSURES(hr == (ext && le16(18) != 0), "high-resolution mode");
    ENSURES(F.pos == (long)le16(2), "position after the header");
    if (ext) REACHED("extended"); else REACHED("plain");
}

/*
 * lc3bin_write_header then lc3bin_read_header
 */
void h_lc3bin_header(void)
{
    static const int durations[] = { 2500, 5000, 7500, 10000 };
    IN_RANGE(id, 0, 3); IN_RANGE(sr, 80, 960); IN_BOOL(hr);
    IN_RANGE(nch, 1, 8); IN_INT(nsamples); IN_RANGE(kbps, 0, 5376);
    REQUIRES(nsamples >= 0);

    lc3bin_write_header(FP, durations[id], sr * 100, hr, kbps * 1000, nch, nsamples);

    ENSURES(F.size == (hr ? 20 : 18) && F.pos == F.size, "size of the header");
    ENSURES(le16(0) == 0xcc1c && le16(2) == (unsigned)F.size, "identification");
    ENSURES(le16(4) == (unsigned)sr && le16(6) == (unsigned)kbps * 10 && le16(8) == (unsigned)nch, "rates and channels");
    ENSURES(le16(10) == (unsigned)durations[id] / 10 && le16(12) == 0 && le32(14) == (uint32_t)nsamples, "duration and samples");

    int frame_us, srate_hz, nch_, nsamples_; bool hr_; long end = F.pos;
    F.pos = 0;
    int r = lc3bin_read_header(FP, &frame_us, &srate_hz, &hr_, &nch_, &nsamples_);
    ENSURES(r == 0 && F.pos == end, "header accepted");
    ENSURES(frame_us == durations[id] && srate_hz == sr * 100 && hr_ == hr && nch_ == nch && nsamples_ == nsamples, "header written is the one read");
    REACHED("header");
}

/*
 * lc3bin_write_data then lc3bin_read_data, at any position
 */
void h_lc3bin_data(void)
{
    static struct { uint8_t b[32]; } in, out, before; static struct content D0;
    IN_OBJ(D); IN_OBJ(in); IN_OBJ(out);
    IN_RANGE(nbytes, 1, 32); IN_RANGE(pos, 0, 32); IN_RANGE(w, 0, FSIZE-1); IN_RANGE(i, 0, 31);
    F.pos = pos; F.size = pos; before = out; D0 = D;

    lc3bin_write_data(FP, &in, nbytes);

    ENSURES(F.pos == pos + 2 + nbytes && F.size == F.pos, "size of the block");
    ENSURES((w >= pos && w < pos + 2 + nbytes) || D.b[w] == D0.b[w], "written after the position only");
    ENSURES(le16(pos) == (unsigned)nbytes, "length of the block");

    F.pos = pos;
    int n = lc3bin_read_data(FP, 1, &out);
    ENSURES(n == nbytes && F.pos == pos + 2 + nbytes, "length of the block read");
    ENSURES(out.b[i] == (i < nbytes ? in.b[i] : before.b[i]), "block written is the one read, and nothing beyond");
    REACHED("data");
}

/*
 * lc3bin_read_data, any content of file: never over the size of the buffer
 */
void h_lc3bin_read_data(void)
{
    static struct { uint8_t b[FSIZE]; } out, before;
    IN_OBJ(D); IN_OBJ(out);
    IN_RANGE(size, 0, FSIZE); IN_RANGE(pos, 0, FSIZE); IN_RANGE(nch, 1, 8); IN_RANGE(i, 0, FSIZE-1);
    REQUIRES(pos <= size);
    F.size = size; F.pos = pos; before = out;
    unsigned n = pos < FSIZE-1 ? le16(pos) : 0;

    int r = lc3bin_read_data(FP, nch, &out);

    bool ok = size >= pos + 2 && n >= 1 && n <= (unsigned)(size - pos - 2);
    if (n == 0) { REACHED("null"); return; }
    ENSURES(r == (ok ? (int)n : -1), "length of the block, rejected when it is not complete");
    ENSURES(out.b[i] == (ok && i < (int)n ? D.b[pos + 2 + i] : before.b[i]), "content of the block, and nothing beyond");
    ENSURES(F.nread <= 2, "count of reads");
    if (ok) REACHED("block"); else REACHED("not complete");
}

/*
 * lc3bin_read_data, a block larger than the buffer is rejected before reading
 */
void h_lc3bin_oversize(void)
{
    static struct { uint8_t b[FSIZE]; } out, before;
    IN_OBJ(D); IN_OBJ(out); IN_RANGE(nch, 1, 8); IN_RANGE(i, 0, FSIZE-1);
    unsigned n = le16(0);
    REQUIRES(n > (unsigned)nch * LC3_HR_MAX_FRAME_BYTES);
    F.size = FSIZE; before = out;
    int r = lc3bin_read_data(FP, nch, &out);
    ENSURES(r == -1 && out.b[i] == before.b[i], "block over the size of the buffer rejected");
    ENSURES(F.nread == 1 && F.pos == 2, "no read of the content of a block over the size of the buffer");
    REACHED("oversize");
}

/*
 * wave_write_header then wave_read_header
 */
void h_wave_header(void)
{
    IN_RANGE(depth, 0, 2); IN_RANGE(sr, 1, 960); IN_RANGE(nch, 1, 8); IN_RANGE(nframes, 0, 1 << 24);
    IN_BOOL(wide);
    static const int depths[] = { 16, 24, 32 };
    int size = wide && depth == 1 ? 4 : 2 + depth;

    wave_write_header(FP, depths[depth], size, sr * 100, nch, nframes);

    ENSURES(F.size == 44 && F.pos == 44 && F.nwrite == 1, "size of the header");
    ENSURES(is_id(0, "RIFF") && is_id(8, "WAVE") && is_id(12, "fmt ") && is_id(36, "data"), "identifiers");
    ENSURES(le32(40) == (uint32_t)nframes * nch * size && le32(4) == le32(40) + 36 && le32(16) == 16, "sizes");
    ENSURES(le16(20) == 1 && le16(22) == (unsigned)nch && le32(24) == (unsigned)sr * 100, "format");
    ENSURES(le32(28) == (unsigned)sr * 100 * nch * size && le16(32) == (unsigned)(nch * size) && le16(34) == (unsigned)depths[depth], "rates");

    int bitdepth = 0, samplesize = 0, samplerate = 0, nchannels = 0, n = -1;
    F.pos = 0;
    int r = wave_read_header(FP, &bitdepth, &samplesize, &samplerate, &nchannels, &n);
    ENSURES(r == 0 && F.pos == 44, "header accepted");
    ENSURES(bitdepth == depths[depth] && samplesize == size && samplerate == sr * 100 && nchannels == nch, "format written is the one read");
    ENSURES(n == nframes, "count of samples written is the one read");
    REACHED("header");
}

/*
 * wave_read_header, any content of format statement, at listed numbers of channels and sizes of frames
 */
static void wave_read(unsigned ch, unsigned fs)
{
    IN_OBJ(D); IN_RANGE(size, 0, 48);
    set16(22, ch); set16(32, fs);
#ifdef VC_NATIVE
    IN_BOOL(good);
    if (good) {
        set32(0, WAVE_FILE_TYPE_ID); set32(8, WAVE_FILE_FMT_ID); set32(12, WAVE_FORMAT_ID);
        set16(20, 1); set32(24, 16000); set32(28, 16000 * fs);
        size = 48;
    }
#endif
    set32(16, 16); set32(36, WAVE_DATA_ID);
    F.size = size; F.pos = 0; F.eof = false;
    int bitdepth = -7, samplesize = -7, samplerate = -7, nch = -7, n = -7;

    int r = wave_read_header(FP, &bitdepth, &samplesize, &samplerate, &nch, &n);

    unsigned fmt = le16(20); uint32_t rate = le32(24);
    bool ok = size >= 44 && is_id(0, "RIFF") && is_id(8, "WAVE") && is_id(12, "fmt ")
        && (fmt == 1 || fmt == 0xfffe) && ch && rate && fs && le32(28) == (uint32_t)(rate * fs);

    ENSURES(r == (ok ? 0 : -1), "rejected when and only when the header is not valid");
    if (r) {
        ENSURES(bitdepth == -7 && samplesize == -7 && samplerate == -7 && nch == -7 && n == -7, "rejected, nothing returned");
        REACHED("rejected"); return;
    }
    ENSURES(bitdepth == (int)le16(34) && nch == (int)ch && samplerate == (int)rate, "format");
    ENSURES(samplesize == (int)(fs / ch) && n == (int)(le32(40) / fs), "size and count of samples");
    ENSURES(F.pos == 44, "position after the header");
    REACHED("accepted");
}

#ifndef NCH
#define NCH 2
#define FRAME 4
#endif
void h_wave_read(void) { wave_read(NCH, FRAME); }

/*
 * wave_read_header, a format statement of any size, and other statements before the data
 */
void h_wave_skip(void)
{
    IN_OBJ(D);
    IN_RANGE(extra, 0, 12); IN_RANGE(chunk, 0, 8); IN_RANGE(nchunks, 0, 1);
    IN_U16(dsize);

    set32(0, WAVE_FILE_TYPE_ID); set32(8, WAVE_FILE_FMT_ID);
    set32(12, WAVE_FORMAT_ID); set32(16, 16 + extra); set16(20, WAVE_FORMAT_PCM);
    set16(22, 2); set32(24, 48000); set32(28, 192000); set16(32, 4); set16(34, 16);
    int at = 36 + extra;
    if (nchunks) { set32(at, __WAVE_ID("LIST")); set32(at + 4, chunk); at += 8 + chunk; }
    set32(at, WAVE_DATA_ID); set32(at + 4, dsize);
    IN_BOOL(cut);
    F.size = at + (cut ? 7 : 8);

    int bitdepth, samplesize, samplerate, nch, n;
    int r = wave_read_header(FP, &bitdepth, &samplesize, &samplerate, &nch, &n);

    ENSURES(r == (cut ? -1 : 0), "data found when and only when present");
    if (r) { REACHED("cut"); return; }
    ENSURES(bitdepth == 16 && samplesize == 2 && samplerate == 48000 && nch == 2 && n == dsize / 4, "format and count of samples");
    ENSURES(F.pos == at + 8, "position on the data");
    REACHED("found");
}

/*
 * wave_read_pcm, wave_write_pcm
 */

void h_wave_pcm(void)
{
    static struct { uint8_t b[32]; } pcm; static struct content D0;
    IN_OBJ(pcm); IN_OBJ(D);
    IN_RANGE(w, 0, FSIZE-1);
    for (int nch = 1; nch <= 2; nch++) for (int size = 2; size <= 4; size++)
    for (int off = 0; off <= 2; off++) for (int count = 0; count <= 1; count++) {
        IN_BOOL(c);
        if (c) {
            F.pos = 10; F.size = 40; F.eof = false; D0 = D;
            wave_write_pcm(FP, size, &pcm, nch, off, count);
            int len = count * nch * size;
            ENSURES(F.pos == 10 + len, "bytes of the samples written");
            ENSURES(D.b[w] == (w >= 10 && w < 10 + len ? pcm.b[nch * off * size + w - 10] : D0.b[w]), "samples at the offset written, no other");
            REACHED("pcm");
            END_CASE();
        }
    }
}

void h_wave_read_pcm(void)
{
    static struct { uint8_t b[32]; } pcm, pcm0;
    IN_OBJ(pcm); IN_OBJ(D);
    IN_RANGE(w, 0, 31);
    for (int nch = 1; nch <= 8; nch++) for (int size = 2; size <= 4; size++) {
        IN_BOOL(c);
        if (c) {
            F.pos = 10; F.size = 60; F.eof = false; pcm0 = pcm;
            int r = wave_read_pcm(FP, size, nch, 1, &pcm);
            int len = nch * size;
            ENSURES(r == 1 && F.pos == 10 + len, "count of samples read");
            ENSURES(pcm.b[w] == (w < len ? D.b[10 + w] : pcm0.b[w]), "samples read, and nothing beyond");
            REACHED("pcm");
            END_CASE();
        }
    }
}
