/* Configuration of the codec, given by HR, DT_US, SR_HZ, PCM_HZ */
#ifndef CONFIG_H
#define CONFIG_H
#ifndef HR
#define HR 0
#endif
#ifndef DT_US
#define DT_US 2500
#endif
#ifndef SR_HZ
#define SR_HZ 8000
#endif
#ifndef PCM_HZ
#define PCM_HZ SR_HZ
#endif
/* From the specification, in samples of the PCM interface */
#define NS (PCM_HZ / 400 * (DT_US / 2500))
#define ND ((NS + (DT_US == 7500 ? PCM_HZ / 250 : PCM_HZ / 400)) / 2)
/* History of decoded samples: at least 18 ms, a whole number of frames */
#define NH (PCM_HZ > 48000 ? 0 : (DT_US == 7500 ? 9 : 8) * (PCM_HZ / 400))
#define NT (PCM_HZ / 800)
/* Coded spectral lines */
#define NE ((SR_HZ == 48000 && !HR ? 100 : SR_HZ / 400) * (DT_US / 2500))
#define DT_ID (DT_US / 2500 - 1)
#define SR_ID_OF(hz) (HR ? (hz == 48000 ? LC3_SRATE_48K_HR : LC3_SRATE_96K_HR) : \
    hz == 8000 ? LC3_SRATE_8K : hz == 16000 ? LC3_SRATE_16K : hz == 24000 ? LC3_SRATE_24K : \
    hz == 32000 ? LC3_SRATE_32K : LC3_SRATE_48K)
#define SR_ID SR_ID_OF(SR_HZ)
#define PCM_ID SR_ID_OF(PCM_HZ)
/* Size of the frames */
#define NB_MIN (!HR ? 20 : (DT_US == 2500 ? (SR_HZ == 48000 ? 54 : 62) : \
    DT_US == 5000 ? (SR_HZ == 48000 ? 93 : 109) : (SR_HZ == 48000 ? 156 : 187)) / 2)
#define NB_MAX (!HR ? 400 : DT_US == 2500 ? 210 : DT_US == 5000 ? 375 : 625)
#endif
