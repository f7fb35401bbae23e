/* Generated by tools/gen_glue.py from the reviewed baseline API. Do not edit. */
#include "glue.h"
#include "ta_libc.h"
#include "ta_func.h"
/* ACCBANDS */
static int ACCBANDS_lb(const double*o){(void)o;return TA_ACCBANDS_Lookback((int)o[0]);}
static int ACCBANDS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ACCBANDS(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int ACCBANDS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ACCBANDS(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int ACCBANDS_si(void**st,const double*o){(void)o;return (int)TA_ACCBANDS_StateInit((struct TA_ACCBANDS_State**)st,(int)o[0]);}
static int ACCBANDS_ss(void*st,const double*in,void*const*out){return (int)TA_ACCBANDS_State((struct TA_ACCBANDS_State*)st,in[0],in[1],in[2],(double*)out[0],(double*)out[1],(double*)out[2]);}
static int ACCBANDS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ACCBANDS_BatchState((struct TA_ACCBANDS_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int ACCBANDS_sf(void**st){return (int)TA_ACCBANDS_StateFree((struct TA_ACCBANDS_State**)st);}
static int ACCBANDS_sv(void*st,FILE*f){return (int)TA_ACCBANDS_StateSave((struct TA_ACCBANDS_State*)st,f);}
static int ACCBANDS_sl(void**st,FILE*f){return (int)TA_ACCBANDS_StateLoad((struct TA_ACCBANDS_State**)st,f);}
/* ACOS */
static int ACOS_lb(const double*o){(void)o;return TA_ACOS_Lookback();}
static int ACOS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ACOS(s,e,in[0],b,n,(double*)out[0]);}
static int ACOS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ACOS(s,e,in[0],b,n,(double*)out[0]);}
static int ACOS_si(void**st,const double*o){(void)o;return (int)TA_ACOS_StateInit((struct TA_ACOS_State**)st);}
static int ACOS_ss(void*st,const double*in,void*const*out){return (int)TA_ACOS_State((struct TA_ACOS_State*)st,in[0],(double*)out[0]);}
static int ACOS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ACOS_BatchState((struct TA_ACOS_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int ACOS_sf(void**st){return (int)TA_ACOS_StateFree((struct TA_ACOS_State**)st);}
static int ACOS_sv(void*st,FILE*f){return (int)TA_ACOS_StateSave((struct TA_ACOS_State*)st,f);}
static int ACOS_sl(void**st,FILE*f){return (int)TA_ACOS_StateLoad((struct TA_ACOS_State**)st,f);}
/* AD */
static int AD_lb(const double*o){(void)o;return TA_AD_Lookback();}
static int AD_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_AD(s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int AD_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_AD(s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int AD_si(void**st,const double*o){(void)o;return (int)TA_AD_StateInit((struct TA_AD_State**)st);}
static int AD_ss(void*st,const double*in,void*const*out){return (int)TA_AD_State((struct TA_AD_State*)st,in[0],in[1],in[2],in[3],(double*)out[0]);}
static int AD_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_AD_BatchState((struct TA_AD_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int AD_sf(void**st){return (int)TA_AD_StateFree((struct TA_AD_State**)st);}
static int AD_sv(void*st,FILE*f){return (int)TA_AD_StateSave((struct TA_AD_State*)st,f);}
static int AD_sl(void**st,FILE*f){return (int)TA_AD_StateLoad((struct TA_AD_State**)st,f);}
/* ADD */
static int ADD_lb(const double*o){(void)o;return TA_ADD_Lookback();}
static int ADD_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ADD(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int ADD_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ADD(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int ADD_si(void**st,const double*o){(void)o;return (int)TA_ADD_StateInit((struct TA_ADD_State**)st);}
static int ADD_ss(void*st,const double*in,void*const*out){return (int)TA_ADD_State((struct TA_ADD_State*)st,in[0],in[1],(double*)out[0]);}
static int ADD_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ADD_BatchState((struct TA_ADD_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int ADD_sf(void**st){return (int)TA_ADD_StateFree((struct TA_ADD_State**)st);}
static int ADD_sv(void*st,FILE*f){return (int)TA_ADD_StateSave((struct TA_ADD_State*)st,f);}
static int ADD_sl(void**st,FILE*f){return (int)TA_ADD_StateLoad((struct TA_ADD_State**)st,f);}
/* ADOSC */
static int ADOSC_lb(const double*o){(void)o;return TA_ADOSC_Lookback((int)o[0],(int)o[1]);}
static int ADOSC_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ADOSC(s,e,in[0],in[1],in[2],in[3],(int)o[0],(int)o[1],b,n,(double*)out[0]);}
static int ADOSC_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ADOSC(s,e,in[0],in[1],in[2],in[3],(int)o[0],(int)o[1],b,n,(double*)out[0]);}
static int ADOSC_si(void**st,const double*o){(void)o;return (int)TA_ADOSC_StateInit((struct TA_ADOSC_State**)st,(int)o[0],(int)o[1]);}
static int ADOSC_ss(void*st,const double*in,void*const*out){return (int)TA_ADOSC_State((struct TA_ADOSC_State*)st,in[0],in[1],in[2],in[3],(double*)out[0]);}
static int ADOSC_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ADOSC_BatchState((struct TA_ADOSC_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int ADOSC_sf(void**st){return (int)TA_ADOSC_StateFree((struct TA_ADOSC_State**)st);}
static int ADOSC_sv(void*st,FILE*f){return (int)TA_ADOSC_StateSave((struct TA_ADOSC_State*)st,f);}
static int ADOSC_sl(void**st,FILE*f){return (int)TA_ADOSC_StateLoad((struct TA_ADOSC_State**)st,f);}
/* ADX */
static int ADX_lb(const double*o){(void)o;return TA_ADX_Lookback((int)o[0]);}
static int ADX_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ADX(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int ADX_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ADX(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int ADX_si(void**st,const double*o){(void)o;return (int)TA_ADX_StateInit((struct TA_ADX_State**)st,(int)o[0]);}
static int ADX_ss(void*st,const double*in,void*const*out){return (int)TA_ADX_State((struct TA_ADX_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int ADX_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ADX_BatchState((struct TA_ADX_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int ADX_sf(void**st){return (int)TA_ADX_StateFree((struct TA_ADX_State**)st);}
static int ADX_sv(void*st,FILE*f){return (int)TA_ADX_StateSave((struct TA_ADX_State*)st,f);}
static int ADX_sl(void**st,FILE*f){return (int)TA_ADX_StateLoad((struct TA_ADX_State**)st,f);}
/* ADXR */
static int ADXR_lb(const double*o){(void)o;return TA_ADXR_Lookback((int)o[0]);}
static int ADXR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ADXR(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int ADXR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ADXR(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int ADXR_si(void**st,const double*o){(void)o;return (int)TA_ADXR_StateInit((struct TA_ADXR_State**)st,(int)o[0]);}
static int ADXR_ss(void*st,const double*in,void*const*out){return (int)TA_ADXR_State((struct TA_ADXR_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int ADXR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ADXR_BatchState((struct TA_ADXR_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int ADXR_sf(void**st){return (int)TA_ADXR_StateFree((struct TA_ADXR_State**)st);}
static int ADXR_sv(void*st,FILE*f){return (int)TA_ADXR_StateSave((struct TA_ADXR_State*)st,f);}
static int ADXR_sl(void**st,FILE*f){return (int)TA_ADXR_StateLoad((struct TA_ADXR_State**)st,f);}
/* APO */
static int APO_lb(const double*o){(void)o;return TA_APO_Lookback((int)o[0],(int)o[1],(TA_MAType)(int)o[2]);}
static int APO_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_APO(s,e,in[0],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],b,n,(double*)out[0]);}
static int APO_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_APO(s,e,in[0],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],b,n,(double*)out[0]);}
static int APO_si(void**st,const double*o){(void)o;return (int)TA_APO_StateInit((struct TA_APO_State**)st,(int)o[0],(int)o[1],(TA_MAType)(int)o[2]);}
static int APO_ss(void*st,const double*in,void*const*out){return (int)TA_APO_State((struct TA_APO_State*)st,in[0],(double*)out[0]);}
static int APO_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_APO_BatchState((struct TA_APO_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int APO_sf(void**st){return (int)TA_APO_StateFree((struct TA_APO_State**)st);}
static int APO_sv(void*st,FILE*f){return (int)TA_APO_StateSave((struct TA_APO_State*)st,f);}
static int APO_sl(void**st,FILE*f){return (int)TA_APO_StateLoad((struct TA_APO_State**)st,f);}
/* AROON */
static int AROON_lb(const double*o){(void)o;return TA_AROON_Lookback((int)o[0]);}
static int AROON_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_AROON(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0],(double*)out[1]);}
static int AROON_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_AROON(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0],(double*)out[1]);}
static int AROON_si(void**st,const double*o){(void)o;return (int)TA_AROON_StateInit((struct TA_AROON_State**)st,(int)o[0]);}
static int AROON_ss(void*st,const double*in,void*const*out){return (int)TA_AROON_State((struct TA_AROON_State*)st,in[0],in[1],(double*)out[0],(double*)out[1]);}
static int AROON_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_AROON_BatchState((struct TA_AROON_State*)st,s,e,in[0],in[1],b,n,(double*)out[0],(double*)out[1]);}
static int AROON_sf(void**st){return (int)TA_AROON_StateFree((struct TA_AROON_State**)st);}
static int AROON_sv(void*st,FILE*f){return (int)TA_AROON_StateSave((struct TA_AROON_State*)st,f);}
static int AROON_sl(void**st,FILE*f){return (int)TA_AROON_StateLoad((struct TA_AROON_State**)st,f);}
/* AROONOSC */
static int AROONOSC_lb(const double*o){(void)o;return TA_AROONOSC_Lookback((int)o[0]);}
static int AROONOSC_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_AROONOSC(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int AROONOSC_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_AROONOSC(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int AROONOSC_si(void**st,const double*o){(void)o;return (int)TA_AROONOSC_StateInit((struct TA_AROONOSC_State**)st,(int)o[0]);}
static int AROONOSC_ss(void*st,const double*in,void*const*out){return (int)TA_AROONOSC_State((struct TA_AROONOSC_State*)st,in[0],in[1],(double*)out[0]);}
static int AROONOSC_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_AROONOSC_BatchState((struct TA_AROONOSC_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int AROONOSC_sf(void**st){return (int)TA_AROONOSC_StateFree((struct TA_AROONOSC_State**)st);}
static int AROONOSC_sv(void*st,FILE*f){return (int)TA_AROONOSC_StateSave((struct TA_AROONOSC_State*)st,f);}
static int AROONOSC_sl(void**st,FILE*f){return (int)TA_AROONOSC_StateLoad((struct TA_AROONOSC_State**)st,f);}
/* ASIN */
static int ASIN_lb(const double*o){(void)o;return TA_ASIN_Lookback();}
static int ASIN_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ASIN(s,e,in[0],b,n,(double*)out[0]);}
static int ASIN_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ASIN(s,e,in[0],b,n,(double*)out[0]);}
static int ASIN_si(void**st,const double*o){(void)o;return (int)TA_ASIN_StateInit((struct TA_ASIN_State**)st);}
static int ASIN_ss(void*st,const double*in,void*const*out){return (int)TA_ASIN_State((struct TA_ASIN_State*)st,in[0],(double*)out[0]);}
static int ASIN_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ASIN_BatchState((struct TA_ASIN_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int ASIN_sf(void**st){return (int)TA_ASIN_StateFree((struct TA_ASIN_State**)st);}
static int ASIN_sv(void*st,FILE*f){return (int)TA_ASIN_StateSave((struct TA_ASIN_State*)st,f);}
static int ASIN_sl(void**st,FILE*f){return (int)TA_ASIN_StateLoad((struct TA_ASIN_State**)st,f);}
/* ATAN */
static int ATAN_lb(const double*o){(void)o;return TA_ATAN_Lookback();}
static int ATAN_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ATAN(s,e,in[0],b,n,(double*)out[0]);}
static int ATAN_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ATAN(s,e,in[0],b,n,(double*)out[0]);}
static int ATAN_si(void**st,const double*o){(void)o;return (int)TA_ATAN_StateInit((struct TA_ATAN_State**)st);}
static int ATAN_ss(void*st,const double*in,void*const*out){return (int)TA_ATAN_State((struct TA_ATAN_State*)st,in[0],(double*)out[0]);}
static int ATAN_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ATAN_BatchState((struct TA_ATAN_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int ATAN_sf(void**st){return (int)TA_ATAN_StateFree((struct TA_ATAN_State**)st);}
static int ATAN_sv(void*st,FILE*f){return (int)TA_ATAN_StateSave((struct TA_ATAN_State*)st,f);}
static int ATAN_sl(void**st,FILE*f){return (int)TA_ATAN_StateLoad((struct TA_ATAN_State**)st,f);}
/* ATR */
static int ATR_lb(const double*o){(void)o;return TA_ATR_Lookback((int)o[0]);}
static int ATR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ATR(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int ATR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ATR(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int ATR_si(void**st,const double*o){(void)o;return (int)TA_ATR_StateInit((struct TA_ATR_State**)st,(int)o[0]);}
static int ATR_ss(void*st,const double*in,void*const*out){return (int)TA_ATR_State((struct TA_ATR_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int ATR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ATR_BatchState((struct TA_ATR_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int ATR_sf(void**st){return (int)TA_ATR_StateFree((struct TA_ATR_State**)st);}
static int ATR_sv(void*st,FILE*f){return (int)TA_ATR_StateSave((struct TA_ATR_State*)st,f);}
static int ATR_sl(void**st,FILE*f){return (int)TA_ATR_StateLoad((struct TA_ATR_State**)st,f);}
/* AVGDEV */
static int AVGDEV_lb(const double*o){(void)o;return TA_AVGDEV_Lookback((int)o[0]);}
static int AVGDEV_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_AVGDEV(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int AVGDEV_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_AVGDEV(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int AVGDEV_si(void**st,const double*o){(void)o;return (int)TA_AVGDEV_StateInit((struct TA_AVGDEV_State**)st,(int)o[0]);}
static int AVGDEV_ss(void*st,const double*in,void*const*out){return (int)TA_AVGDEV_State((struct TA_AVGDEV_State*)st,in[0],(double*)out[0]);}
static int AVGDEV_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_AVGDEV_BatchState((struct TA_AVGDEV_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int AVGDEV_sf(void**st){return (int)TA_AVGDEV_StateFree((struct TA_AVGDEV_State**)st);}
static int AVGDEV_sv(void*st,FILE*f){return (int)TA_AVGDEV_StateSave((struct TA_AVGDEV_State*)st,f);}
static int AVGDEV_sl(void**st,FILE*f){return (int)TA_AVGDEV_StateLoad((struct TA_AVGDEV_State**)st,f);}
/* AVGPRICE */
static int AVGPRICE_lb(const double*o){(void)o;return TA_AVGPRICE_Lookback();}
static int AVGPRICE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_AVGPRICE(s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int AVGPRICE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_AVGPRICE(s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int AVGPRICE_si(void**st,const double*o){(void)o;return (int)TA_AVGPRICE_StateInit((struct TA_AVGPRICE_State**)st);}
static int AVGPRICE_ss(void*st,const double*in,void*const*out){return (int)TA_AVGPRICE_State((struct TA_AVGPRICE_State*)st,in[0],in[1],in[2],in[3],(double*)out[0]);}
static int AVGPRICE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_AVGPRICE_BatchState((struct TA_AVGPRICE_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int AVGPRICE_sf(void**st){return (int)TA_AVGPRICE_StateFree((struct TA_AVGPRICE_State**)st);}
static int AVGPRICE_sv(void*st,FILE*f){return (int)TA_AVGPRICE_StateSave((struct TA_AVGPRICE_State*)st,f);}
static int AVGPRICE_sl(void**st,FILE*f){return (int)TA_AVGPRICE_StateLoad((struct TA_AVGPRICE_State**)st,f);}
/* BBANDS */
static int BBANDS_lb(const double*o){(void)o;return TA_BBANDS_Lookback((int)o[0],o[1],o[2],(TA_MAType)(int)o[3]);}
static int BBANDS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_BBANDS(s,e,in[0],(int)o[0],o[1],o[2],(TA_MAType)(int)o[3],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int BBANDS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_BBANDS(s,e,in[0],(int)o[0],o[1],o[2],(TA_MAType)(int)o[3],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int BBANDS_si(void**st,const double*o){(void)o;return (int)TA_BBANDS_StateInit((struct TA_BBANDS_State**)st,(int)o[0],o[1],o[2],(TA_MAType)(int)o[3]);}
static int BBANDS_ss(void*st,const double*in,void*const*out){return (int)TA_BBANDS_State((struct TA_BBANDS_State*)st,in[0],(double*)out[0],(double*)out[1],(double*)out[2]);}
static int BBANDS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_BBANDS_BatchState((struct TA_BBANDS_State*)st,s,e,in[0],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int BBANDS_sf(void**st){return (int)TA_BBANDS_StateFree((struct TA_BBANDS_State**)st);}
static int BBANDS_sv(void*st,FILE*f){return (int)TA_BBANDS_StateSave((struct TA_BBANDS_State*)st,f);}
static int BBANDS_sl(void**st,FILE*f){return (int)TA_BBANDS_StateLoad((struct TA_BBANDS_State**)st,f);}
/* BETA */
static int BETA_lb(const double*o){(void)o;return TA_BETA_Lookback((int)o[0]);}
static int BETA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_BETA(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int BETA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_BETA(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int BETA_si(void**st,const double*o){(void)o;return (int)TA_BETA_StateInit((struct TA_BETA_State**)st,(int)o[0]);}
static int BETA_ss(void*st,const double*in,void*const*out){return (int)TA_BETA_State((struct TA_BETA_State*)st,in[0],in[1],(double*)out[0]);}
static int BETA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_BETA_BatchState((struct TA_BETA_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int BETA_sf(void**st){return (int)TA_BETA_StateFree((struct TA_BETA_State**)st);}
static int BETA_sv(void*st,FILE*f){return (int)TA_BETA_StateSave((struct TA_BETA_State*)st,f);}
static int BETA_sl(void**st,FILE*f){return (int)TA_BETA_StateLoad((struct TA_BETA_State**)st,f);}
/* BOP */
static int BOP_lb(const double*o){(void)o;return TA_BOP_Lookback();}
static int BOP_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_BOP(s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int BOP_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_BOP(s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int BOP_si(void**st,const double*o){(void)o;return (int)TA_BOP_StateInit((struct TA_BOP_State**)st);}
static int BOP_ss(void*st,const double*in,void*const*out){return (int)TA_BOP_State((struct TA_BOP_State*)st,in[0],in[1],in[2],in[3],(double*)out[0]);}
static int BOP_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_BOP_BatchState((struct TA_BOP_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int BOP_sf(void**st){return (int)TA_BOP_StateFree((struct TA_BOP_State**)st);}
static int BOP_sv(void*st,FILE*f){return (int)TA_BOP_StateSave((struct TA_BOP_State*)st,f);}
static int BOP_sl(void**st,FILE*f){return (int)TA_BOP_StateLoad((struct TA_BOP_State**)st,f);}
/* CCI */
static int CCI_lb(const double*o){(void)o;return TA_CCI_Lookback((int)o[0]);}
static int CCI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CCI(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int CCI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CCI(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int CCI_si(void**st,const double*o){(void)o;return (int)TA_CCI_StateInit((struct TA_CCI_State**)st,(int)o[0]);}
static int CCI_ss(void*st,const double*in,void*const*out){return (int)TA_CCI_State((struct TA_CCI_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int CCI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CCI_BatchState((struct TA_CCI_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int CCI_sf(void**st){return (int)TA_CCI_StateFree((struct TA_CCI_State**)st);}
static int CCI_sv(void*st,FILE*f){return (int)TA_CCI_StateSave((struct TA_CCI_State*)st,f);}
static int CCI_sl(void**st,FILE*f){return (int)TA_CCI_StateLoad((struct TA_CCI_State**)st,f);}
/* CDL2CROWS */
static int CDL2CROWS_lb(const double*o){(void)o;return TA_CDL2CROWS_Lookback();}
static int CDL2CROWS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDL2CROWS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL2CROWS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDL2CROWS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL2CROWS_si(void**st,const double*o){(void)o;return (int)TA_CDL2CROWS_StateInit((struct TA_CDL2CROWS_State**)st);}
static int CDL2CROWS_ss(void*st,const double*in,void*const*out){return (int)TA_CDL2CROWS_State((struct TA_CDL2CROWS_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDL2CROWS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDL2CROWS_BatchState((struct TA_CDL2CROWS_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL2CROWS_sf(void**st){return (int)TA_CDL2CROWS_StateFree((struct TA_CDL2CROWS_State**)st);}
static int CDL2CROWS_sv(void*st,FILE*f){return (int)TA_CDL2CROWS_StateSave((struct TA_CDL2CROWS_State*)st,f);}
static int CDL2CROWS_sl(void**st,FILE*f){return (int)TA_CDL2CROWS_StateLoad((struct TA_CDL2CROWS_State**)st,f);}
/* CDL3BLACKCROWS */
static int CDL3BLACKCROWS_lb(const double*o){(void)o;return TA_CDL3BLACKCROWS_Lookback();}
static int CDL3BLACKCROWS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDL3BLACKCROWS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3BLACKCROWS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDL3BLACKCROWS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3BLACKCROWS_si(void**st,const double*o){(void)o;return (int)TA_CDL3BLACKCROWS_StateInit((struct TA_CDL3BLACKCROWS_State**)st);}
static int CDL3BLACKCROWS_ss(void*st,const double*in,void*const*out){return (int)TA_CDL3BLACKCROWS_State((struct TA_CDL3BLACKCROWS_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDL3BLACKCROWS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDL3BLACKCROWS_BatchState((struct TA_CDL3BLACKCROWS_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3BLACKCROWS_sf(void**st){return (int)TA_CDL3BLACKCROWS_StateFree((struct TA_CDL3BLACKCROWS_State**)st);}
static int CDL3BLACKCROWS_sv(void*st,FILE*f){return (int)TA_CDL3BLACKCROWS_StateSave((struct TA_CDL3BLACKCROWS_State*)st,f);}
static int CDL3BLACKCROWS_sl(void**st,FILE*f){return (int)TA_CDL3BLACKCROWS_StateLoad((struct TA_CDL3BLACKCROWS_State**)st,f);}
/* CDL3INSIDE */
static int CDL3INSIDE_lb(const double*o){(void)o;return TA_CDL3INSIDE_Lookback();}
static int CDL3INSIDE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDL3INSIDE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3INSIDE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDL3INSIDE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3INSIDE_si(void**st,const double*o){(void)o;return (int)TA_CDL3INSIDE_StateInit((struct TA_CDL3INSIDE_State**)st);}
static int CDL3INSIDE_ss(void*st,const double*in,void*const*out){return (int)TA_CDL3INSIDE_State((struct TA_CDL3INSIDE_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDL3INSIDE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDL3INSIDE_BatchState((struct TA_CDL3INSIDE_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3INSIDE_sf(void**st){return (int)TA_CDL3INSIDE_StateFree((struct TA_CDL3INSIDE_State**)st);}
static int CDL3INSIDE_sv(void*st,FILE*f){return (int)TA_CDL3INSIDE_StateSave((struct TA_CDL3INSIDE_State*)st,f);}
static int CDL3INSIDE_sl(void**st,FILE*f){return (int)TA_CDL3INSIDE_StateLoad((struct TA_CDL3INSIDE_State**)st,f);}
/* CDL3LINESTRIKE */
static int CDL3LINESTRIKE_lb(const double*o){(void)o;return TA_CDL3LINESTRIKE_Lookback();}
static int CDL3LINESTRIKE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDL3LINESTRIKE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3LINESTRIKE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDL3LINESTRIKE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3LINESTRIKE_si(void**st,const double*o){(void)o;return (int)TA_CDL3LINESTRIKE_StateInit((struct TA_CDL3LINESTRIKE_State**)st);}
static int CDL3LINESTRIKE_ss(void*st,const double*in,void*const*out){return (int)TA_CDL3LINESTRIKE_State((struct TA_CDL3LINESTRIKE_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDL3LINESTRIKE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDL3LINESTRIKE_BatchState((struct TA_CDL3LINESTRIKE_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3LINESTRIKE_sf(void**st){return (int)TA_CDL3LINESTRIKE_StateFree((struct TA_CDL3LINESTRIKE_State**)st);}
static int CDL3LINESTRIKE_sv(void*st,FILE*f){return (int)TA_CDL3LINESTRIKE_StateSave((struct TA_CDL3LINESTRIKE_State*)st,f);}
static int CDL3LINESTRIKE_sl(void**st,FILE*f){return (int)TA_CDL3LINESTRIKE_StateLoad((struct TA_CDL3LINESTRIKE_State**)st,f);}
/* CDL3OUTSIDE */
static int CDL3OUTSIDE_lb(const double*o){(void)o;return TA_CDL3OUTSIDE_Lookback();}
static int CDL3OUTSIDE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDL3OUTSIDE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3OUTSIDE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDL3OUTSIDE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3OUTSIDE_si(void**st,const double*o){(void)o;return (int)TA_CDL3OUTSIDE_StateInit((struct TA_CDL3OUTSIDE_State**)st);}
static int CDL3OUTSIDE_ss(void*st,const double*in,void*const*out){return (int)TA_CDL3OUTSIDE_State((struct TA_CDL3OUTSIDE_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDL3OUTSIDE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDL3OUTSIDE_BatchState((struct TA_CDL3OUTSIDE_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3OUTSIDE_sf(void**st){return (int)TA_CDL3OUTSIDE_StateFree((struct TA_CDL3OUTSIDE_State**)st);}
static int CDL3OUTSIDE_sv(void*st,FILE*f){return (int)TA_CDL3OUTSIDE_StateSave((struct TA_CDL3OUTSIDE_State*)st,f);}
static int CDL3OUTSIDE_sl(void**st,FILE*f){return (int)TA_CDL3OUTSIDE_StateLoad((struct TA_CDL3OUTSIDE_State**)st,f);}
/* CDL3STARSINSOUTH */
static int CDL3STARSINSOUTH_lb(const double*o){(void)o;return TA_CDL3STARSINSOUTH_Lookback();}
static int CDL3STARSINSOUTH_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDL3STARSINSOUTH(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3STARSINSOUTH_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDL3STARSINSOUTH(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3STARSINSOUTH_si(void**st,const double*o){(void)o;return (int)TA_CDL3STARSINSOUTH_StateInit((struct TA_CDL3STARSINSOUTH_State**)st);}
static int CDL3STARSINSOUTH_ss(void*st,const double*in,void*const*out){return (int)TA_CDL3STARSINSOUTH_State((struct TA_CDL3STARSINSOUTH_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDL3STARSINSOUTH_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDL3STARSINSOUTH_BatchState((struct TA_CDL3STARSINSOUTH_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3STARSINSOUTH_sf(void**st){return (int)TA_CDL3STARSINSOUTH_StateFree((struct TA_CDL3STARSINSOUTH_State**)st);}
static int CDL3STARSINSOUTH_sv(void*st,FILE*f){return (int)TA_CDL3STARSINSOUTH_StateSave((struct TA_CDL3STARSINSOUTH_State*)st,f);}
static int CDL3STARSINSOUTH_sl(void**st,FILE*f){return (int)TA_CDL3STARSINSOUTH_StateLoad((struct TA_CDL3STARSINSOUTH_State**)st,f);}
/* CDL3WHITESOLDIERS */
static int CDL3WHITESOLDIERS_lb(const double*o){(void)o;return TA_CDL3WHITESOLDIERS_Lookback();}
static int CDL3WHITESOLDIERS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDL3WHITESOLDIERS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3WHITESOLDIERS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDL3WHITESOLDIERS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3WHITESOLDIERS_si(void**st,const double*o){(void)o;return (int)TA_CDL3WHITESOLDIERS_StateInit((struct TA_CDL3WHITESOLDIERS_State**)st);}
static int CDL3WHITESOLDIERS_ss(void*st,const double*in,void*const*out){return (int)TA_CDL3WHITESOLDIERS_State((struct TA_CDL3WHITESOLDIERS_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDL3WHITESOLDIERS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDL3WHITESOLDIERS_BatchState((struct TA_CDL3WHITESOLDIERS_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDL3WHITESOLDIERS_sf(void**st){return (int)TA_CDL3WHITESOLDIERS_StateFree((struct TA_CDL3WHITESOLDIERS_State**)st);}
static int CDL3WHITESOLDIERS_sv(void*st,FILE*f){return (int)TA_CDL3WHITESOLDIERS_StateSave((struct TA_CDL3WHITESOLDIERS_State*)st,f);}
static int CDL3WHITESOLDIERS_sl(void**st,FILE*f){return (int)TA_CDL3WHITESOLDIERS_StateLoad((struct TA_CDL3WHITESOLDIERS_State**)st,f);}
/* CDLABANDONEDBABY */
static int CDLABANDONEDBABY_lb(const double*o){(void)o;return TA_CDLABANDONEDBABY_Lookback(o[0]);}
static int CDLABANDONEDBABY_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLABANDONEDBABY(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLABANDONEDBABY_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLABANDONEDBABY(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLABANDONEDBABY_si(void**st,const double*o){(void)o;return (int)TA_CDLABANDONEDBABY_StateInit((struct TA_CDLABANDONEDBABY_State**)st,o[0]);}
static int CDLABANDONEDBABY_ss(void*st,const double*in,void*const*out){return (int)TA_CDLABANDONEDBABY_State((struct TA_CDLABANDONEDBABY_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLABANDONEDBABY_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLABANDONEDBABY_BatchState((struct TA_CDLABANDONEDBABY_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLABANDONEDBABY_sf(void**st){return (int)TA_CDLABANDONEDBABY_StateFree((struct TA_CDLABANDONEDBABY_State**)st);}
static int CDLABANDONEDBABY_sv(void*st,FILE*f){return (int)TA_CDLABANDONEDBABY_StateSave((struct TA_CDLABANDONEDBABY_State*)st,f);}
static int CDLABANDONEDBABY_sl(void**st,FILE*f){return (int)TA_CDLABANDONEDBABY_StateLoad((struct TA_CDLABANDONEDBABY_State**)st,f);}
/* CDLADVANCEBLOCK */
static int CDLADVANCEBLOCK_lb(const double*o){(void)o;return TA_CDLADVANCEBLOCK_Lookback();}
static int CDLADVANCEBLOCK_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLADVANCEBLOCK(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLADVANCEBLOCK_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLADVANCEBLOCK(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLADVANCEBLOCK_si(void**st,const double*o){(void)o;return (int)TA_CDLADVANCEBLOCK_StateInit((struct TA_CDLADVANCEBLOCK_State**)st);}
static int CDLADVANCEBLOCK_ss(void*st,const double*in,void*const*out){return (int)TA_CDLADVANCEBLOCK_State((struct TA_CDLADVANCEBLOCK_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLADVANCEBLOCK_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLADVANCEBLOCK_BatchState((struct TA_CDLADVANCEBLOCK_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLADVANCEBLOCK_sf(void**st){return (int)TA_CDLADVANCEBLOCK_StateFree((struct TA_CDLADVANCEBLOCK_State**)st);}
static int CDLADVANCEBLOCK_sv(void*st,FILE*f){return (int)TA_CDLADVANCEBLOCK_StateSave((struct TA_CDLADVANCEBLOCK_State*)st,f);}
static int CDLADVANCEBLOCK_sl(void**st,FILE*f){return (int)TA_CDLADVANCEBLOCK_StateLoad((struct TA_CDLADVANCEBLOCK_State**)st,f);}
/* CDLBELTHOLD */
static int CDLBELTHOLD_lb(const double*o){(void)o;return TA_CDLBELTHOLD_Lookback();}
static int CDLBELTHOLD_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLBELTHOLD(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLBELTHOLD_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLBELTHOLD(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLBELTHOLD_si(void**st,const double*o){(void)o;return (int)TA_CDLBELTHOLD_StateInit((struct TA_CDLBELTHOLD_State**)st);}
static int CDLBELTHOLD_ss(void*st,const double*in,void*const*out){return (int)TA_CDLBELTHOLD_State((struct TA_CDLBELTHOLD_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLBELTHOLD_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLBELTHOLD_BatchState((struct TA_CDLBELTHOLD_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLBELTHOLD_sf(void**st){return (int)TA_CDLBELTHOLD_StateFree((struct TA_CDLBELTHOLD_State**)st);}
static int CDLBELTHOLD_sv(void*st,FILE*f){return (int)TA_CDLBELTHOLD_StateSave((struct TA_CDLBELTHOLD_State*)st,f);}
static int CDLBELTHOLD_sl(void**st,FILE*f){return (int)TA_CDLBELTHOLD_StateLoad((struct TA_CDLBELTHOLD_State**)st,f);}
/* CDLBREAKAWAY */
static int CDLBREAKAWAY_lb(const double*o){(void)o;return TA_CDLBREAKAWAY_Lookback();}
static int CDLBREAKAWAY_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLBREAKAWAY(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLBREAKAWAY_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLBREAKAWAY(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLBREAKAWAY_si(void**st,const double*o){(void)o;return (int)TA_CDLBREAKAWAY_StateInit((struct TA_CDLBREAKAWAY_State**)st);}
static int CDLBREAKAWAY_ss(void*st,const double*in,void*const*out){return (int)TA_CDLBREAKAWAY_State((struct TA_CDLBREAKAWAY_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLBREAKAWAY_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLBREAKAWAY_BatchState((struct TA_CDLBREAKAWAY_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLBREAKAWAY_sf(void**st){return (int)TA_CDLBREAKAWAY_StateFree((struct TA_CDLBREAKAWAY_State**)st);}
static int CDLBREAKAWAY_sv(void*st,FILE*f){return (int)TA_CDLBREAKAWAY_StateSave((struct TA_CDLBREAKAWAY_State*)st,f);}
static int CDLBREAKAWAY_sl(void**st,FILE*f){return (int)TA_CDLBREAKAWAY_StateLoad((struct TA_CDLBREAKAWAY_State**)st,f);}
/* CDLCLOSINGMARUBOZU */
static int CDLCLOSINGMARUBOZU_lb(const double*o){(void)o;return TA_CDLCLOSINGMARUBOZU_Lookback();}
static int CDLCLOSINGMARUBOZU_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLCLOSINGMARUBOZU(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLCLOSINGMARUBOZU_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLCLOSINGMARUBOZU(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLCLOSINGMARUBOZU_si(void**st,const double*o){(void)o;return (int)TA_CDLCLOSINGMARUBOZU_StateInit((struct TA_CDLCLOSINGMARUBOZU_State**)st);}
static int CDLCLOSINGMARUBOZU_ss(void*st,const double*in,void*const*out){return (int)TA_CDLCLOSINGMARUBOZU_State((struct TA_CDLCLOSINGMARUBOZU_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLCLOSINGMARUBOZU_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLCLOSINGMARUBOZU_BatchState((struct TA_CDLCLOSINGMARUBOZU_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLCLOSINGMARUBOZU_sf(void**st){return (int)TA_CDLCLOSINGMARUBOZU_StateFree((struct TA_CDLCLOSINGMARUBOZU_State**)st);}
static int CDLCLOSINGMARUBOZU_sv(void*st,FILE*f){return (int)TA_CDLCLOSINGMARUBOZU_StateSave((struct TA_CDLCLOSINGMARUBOZU_State*)st,f);}
static int CDLCLOSINGMARUBOZU_sl(void**st,FILE*f){return (int)TA_CDLCLOSINGMARUBOZU_StateLoad((struct TA_CDLCLOSINGMARUBOZU_State**)st,f);}
/* CDLCONCEALBABYSWALL */
static int CDLCONCEALBABYSWALL_lb(const double*o){(void)o;return TA_CDLCONCEALBABYSWALL_Lookback();}
static int CDLCONCEALBABYSWALL_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLCONCEALBABYSWALL(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLCONCEALBABYSWALL_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLCONCEALBABYSWALL(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLCONCEALBABYSWALL_si(void**st,const double*o){(void)o;return (int)TA_CDLCONCEALBABYSWALL_StateInit((struct TA_CDLCONCEALBABYSWALL_State**)st);}
static int CDLCONCEALBABYSWALL_ss(void*st,const double*in,void*const*out){return (int)TA_CDLCONCEALBABYSWALL_State((struct TA_CDLCONCEALBABYSWALL_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLCONCEALBABYSWALL_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLCONCEALBABYSWALL_BatchState((struct TA_CDLCONCEALBABYSWALL_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLCONCEALBABYSWALL_sf(void**st){return (int)TA_CDLCONCEALBABYSWALL_StateFree((struct TA_CDLCONCEALBABYSWALL_State**)st);}
static int CDLCONCEALBABYSWALL_sv(void*st,FILE*f){return (int)TA_CDLCONCEALBABYSWALL_StateSave((struct TA_CDLCONCEALBABYSWALL_State*)st,f);}
static int CDLCONCEALBABYSWALL_sl(void**st,FILE*f){return (int)TA_CDLCONCEALBABYSWALL_StateLoad((struct TA_CDLCONCEALBABYSWALL_State**)st,f);}
/* CDLCOUNTERATTACK */
static int CDLCOUNTERATTACK_lb(const double*o){(void)o;return TA_CDLCOUNTERATTACK_Lookback();}
static int CDLCOUNTERATTACK_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLCOUNTERATTACK(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLCOUNTERATTACK_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLCOUNTERATTACK(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLCOUNTERATTACK_si(void**st,const double*o){(void)o;return (int)TA_CDLCOUNTERATTACK_StateInit((struct TA_CDLCOUNTERATTACK_State**)st);}
static int CDLCOUNTERATTACK_ss(void*st,const double*in,void*const*out){return (int)TA_CDLCOUNTERATTACK_State((struct TA_CDLCOUNTERATTACK_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLCOUNTERATTACK_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLCOUNTERATTACK_BatchState((struct TA_CDLCOUNTERATTACK_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLCOUNTERATTACK_sf(void**st){return (int)TA_CDLCOUNTERATTACK_StateFree((struct TA_CDLCOUNTERATTACK_State**)st);}
static int CDLCOUNTERATTACK_sv(void*st,FILE*f){return (int)TA_CDLCOUNTERATTACK_StateSave((struct TA_CDLCOUNTERATTACK_State*)st,f);}
static int CDLCOUNTERATTACK_sl(void**st,FILE*f){return (int)TA_CDLCOUNTERATTACK_StateLoad((struct TA_CDLCOUNTERATTACK_State**)st,f);}
/* CDLDARKCLOUDCOVER */
static int CDLDARKCLOUDCOVER_lb(const double*o){(void)o;return TA_CDLDARKCLOUDCOVER_Lookback(o[0]);}
static int CDLDARKCLOUDCOVER_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLDARKCLOUDCOVER(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLDARKCLOUDCOVER_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLDARKCLOUDCOVER(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLDARKCLOUDCOVER_si(void**st,const double*o){(void)o;return (int)TA_CDLDARKCLOUDCOVER_StateInit((struct TA_CDLDARKCLOUDCOVER_State**)st,o[0]);}
static int CDLDARKCLOUDCOVER_ss(void*st,const double*in,void*const*out){return (int)TA_CDLDARKCLOUDCOVER_State((struct TA_CDLDARKCLOUDCOVER_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLDARKCLOUDCOVER_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLDARKCLOUDCOVER_BatchState((struct TA_CDLDARKCLOUDCOVER_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDARKCLOUDCOVER_sf(void**st){return (int)TA_CDLDARKCLOUDCOVER_StateFree((struct TA_CDLDARKCLOUDCOVER_State**)st);}
static int CDLDARKCLOUDCOVER_sv(void*st,FILE*f){return (int)TA_CDLDARKCLOUDCOVER_StateSave((struct TA_CDLDARKCLOUDCOVER_State*)st,f);}
static int CDLDARKCLOUDCOVER_sl(void**st,FILE*f){return (int)TA_CDLDARKCLOUDCOVER_StateLoad((struct TA_CDLDARKCLOUDCOVER_State**)st,f);}
/* CDLDOJI */
static int CDLDOJI_lb(const double*o){(void)o;return TA_CDLDOJI_Lookback();}
static int CDLDOJI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLDOJI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDOJI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLDOJI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDOJI_si(void**st,const double*o){(void)o;return (int)TA_CDLDOJI_StateInit((struct TA_CDLDOJI_State**)st);}
static int CDLDOJI_ss(void*st,const double*in,void*const*out){return (int)TA_CDLDOJI_State((struct TA_CDLDOJI_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLDOJI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLDOJI_BatchState((struct TA_CDLDOJI_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDOJI_sf(void**st){return (int)TA_CDLDOJI_StateFree((struct TA_CDLDOJI_State**)st);}
static int CDLDOJI_sv(void*st,FILE*f){return (int)TA_CDLDOJI_StateSave((struct TA_CDLDOJI_State*)st,f);}
static int CDLDOJI_sl(void**st,FILE*f){return (int)TA_CDLDOJI_StateLoad((struct TA_CDLDOJI_State**)st,f);}
/* CDLDOJISTAR */
static int CDLDOJISTAR_lb(const double*o){(void)o;return TA_CDLDOJISTAR_Lookback();}
static int CDLDOJISTAR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLDOJISTAR(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDOJISTAR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLDOJISTAR(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDOJISTAR_si(void**st,const double*o){(void)o;return (int)TA_CDLDOJISTAR_StateInit((struct TA_CDLDOJISTAR_State**)st);}
static int CDLDOJISTAR_ss(void*st,const double*in,void*const*out){return (int)TA_CDLDOJISTAR_State((struct TA_CDLDOJISTAR_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLDOJISTAR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLDOJISTAR_BatchState((struct TA_CDLDOJISTAR_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDOJISTAR_sf(void**st){return (int)TA_CDLDOJISTAR_StateFree((struct TA_CDLDOJISTAR_State**)st);}
static int CDLDOJISTAR_sv(void*st,FILE*f){return (int)TA_CDLDOJISTAR_StateSave((struct TA_CDLDOJISTAR_State*)st,f);}
static int CDLDOJISTAR_sl(void**st,FILE*f){return (int)TA_CDLDOJISTAR_StateLoad((struct TA_CDLDOJISTAR_State**)st,f);}
/* CDLDRAGONFLYDOJI */
static int CDLDRAGONFLYDOJI_lb(const double*o){(void)o;return TA_CDLDRAGONFLYDOJI_Lookback();}
static int CDLDRAGONFLYDOJI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLDRAGONFLYDOJI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDRAGONFLYDOJI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLDRAGONFLYDOJI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDRAGONFLYDOJI_si(void**st,const double*o){(void)o;return (int)TA_CDLDRAGONFLYDOJI_StateInit((struct TA_CDLDRAGONFLYDOJI_State**)st);}
static int CDLDRAGONFLYDOJI_ss(void*st,const double*in,void*const*out){return (int)TA_CDLDRAGONFLYDOJI_State((struct TA_CDLDRAGONFLYDOJI_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLDRAGONFLYDOJI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLDRAGONFLYDOJI_BatchState((struct TA_CDLDRAGONFLYDOJI_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLDRAGONFLYDOJI_sf(void**st){return (int)TA_CDLDRAGONFLYDOJI_StateFree((struct TA_CDLDRAGONFLYDOJI_State**)st);}
static int CDLDRAGONFLYDOJI_sv(void*st,FILE*f){return (int)TA_CDLDRAGONFLYDOJI_StateSave((struct TA_CDLDRAGONFLYDOJI_State*)st,f);}
static int CDLDRAGONFLYDOJI_sl(void**st,FILE*f){return (int)TA_CDLDRAGONFLYDOJI_StateLoad((struct TA_CDLDRAGONFLYDOJI_State**)st,f);}
/* CDLENGULFING */
static int CDLENGULFING_lb(const double*o){(void)o;return TA_CDLENGULFING_Lookback();}
static int CDLENGULFING_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLENGULFING(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLENGULFING_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLENGULFING(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLENGULFING_si(void**st,const double*o){(void)o;return (int)TA_CDLENGULFING_StateInit((struct TA_CDLENGULFING_State**)st);}
static int CDLENGULFING_ss(void*st,const double*in,void*const*out){return (int)TA_CDLENGULFING_State((struct TA_CDLENGULFING_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLENGULFING_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLENGULFING_BatchState((struct TA_CDLENGULFING_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLENGULFING_sf(void**st){return (int)TA_CDLENGULFING_StateFree((struct TA_CDLENGULFING_State**)st);}
static int CDLENGULFING_sv(void*st,FILE*f){return (int)TA_CDLENGULFING_StateSave((struct TA_CDLENGULFING_State*)st,f);}
static int CDLENGULFING_sl(void**st,FILE*f){return (int)TA_CDLENGULFING_StateLoad((struct TA_CDLENGULFING_State**)st,f);}
/* CDLEVENINGDOJISTAR */
static int CDLEVENINGDOJISTAR_lb(const double*o){(void)o;return TA_CDLEVENINGDOJISTAR_Lookback(o[0]);}
static int CDLEVENINGDOJISTAR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLEVENINGDOJISTAR(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLEVENINGDOJISTAR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLEVENINGDOJISTAR(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLEVENINGDOJISTAR_si(void**st,const double*o){(void)o;return (int)TA_CDLEVENINGDOJISTAR_StateInit((struct TA_CDLEVENINGDOJISTAR_State**)st,o[0]);}
static int CDLEVENINGDOJISTAR_ss(void*st,const double*in,void*const*out){return (int)TA_CDLEVENINGDOJISTAR_State((struct TA_CDLEVENINGDOJISTAR_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLEVENINGDOJISTAR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLEVENINGDOJISTAR_BatchState((struct TA_CDLEVENINGDOJISTAR_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLEVENINGDOJISTAR_sf(void**st){return (int)TA_CDLEVENINGDOJISTAR_StateFree((struct TA_CDLEVENINGDOJISTAR_State**)st);}
static int CDLEVENINGDOJISTAR_sv(void*st,FILE*f){return (int)TA_CDLEVENINGDOJISTAR_StateSave((struct TA_CDLEVENINGDOJISTAR_State*)st,f);}
static int CDLEVENINGDOJISTAR_sl(void**st,FILE*f){return (int)TA_CDLEVENINGDOJISTAR_StateLoad((struct TA_CDLEVENINGDOJISTAR_State**)st,f);}
/* CDLEVENINGSTAR */
static int CDLEVENINGSTAR_lb(const double*o){(void)o;return TA_CDLEVENINGSTAR_Lookback(o[0]);}
static int CDLEVENINGSTAR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLEVENINGSTAR(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLEVENINGSTAR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLEVENINGSTAR(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLEVENINGSTAR_si(void**st,const double*o){(void)o;return (int)TA_CDLEVENINGSTAR_StateInit((struct TA_CDLEVENINGSTAR_State**)st,o[0]);}
static int CDLEVENINGSTAR_ss(void*st,const double*in,void*const*out){return (int)TA_CDLEVENINGSTAR_State((struct TA_CDLEVENINGSTAR_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLEVENINGSTAR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLEVENINGSTAR_BatchState((struct TA_CDLEVENINGSTAR_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLEVENINGSTAR_sf(void**st){return (int)TA_CDLEVENINGSTAR_StateFree((struct TA_CDLEVENINGSTAR_State**)st);}
static int CDLEVENINGSTAR_sv(void*st,FILE*f){return (int)TA_CDLEVENINGSTAR_StateSave((struct TA_CDLEVENINGSTAR_State*)st,f);}
static int CDLEVENINGSTAR_sl(void**st,FILE*f){return (int)TA_CDLEVENINGSTAR_StateLoad((struct TA_CDLEVENINGSTAR_State**)st,f);}
/* CDLGAPSIDESIDEWHITE */
static int CDLGAPSIDESIDEWHITE_lb(const double*o){(void)o;return TA_CDLGAPSIDESIDEWHITE_Lookback();}
static int CDLGAPSIDESIDEWHITE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLGAPSIDESIDEWHITE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLGAPSIDESIDEWHITE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLGAPSIDESIDEWHITE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLGAPSIDESIDEWHITE_si(void**st,const double*o){(void)o;return (int)TA_CDLGAPSIDESIDEWHITE_StateInit((struct TA_CDLGAPSIDESIDEWHITE_State**)st);}
static int CDLGAPSIDESIDEWHITE_ss(void*st,const double*in,void*const*out){return (int)TA_CDLGAPSIDESIDEWHITE_State((struct TA_CDLGAPSIDESIDEWHITE_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLGAPSIDESIDEWHITE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLGAPSIDESIDEWHITE_BatchState((struct TA_CDLGAPSIDESIDEWHITE_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLGAPSIDESIDEWHITE_sf(void**st){return (int)TA_CDLGAPSIDESIDEWHITE_StateFree((struct TA_CDLGAPSIDESIDEWHITE_State**)st);}
static int CDLGAPSIDESIDEWHITE_sv(void*st,FILE*f){return (int)TA_CDLGAPSIDESIDEWHITE_StateSave((struct TA_CDLGAPSIDESIDEWHITE_State*)st,f);}
static int CDLGAPSIDESIDEWHITE_sl(void**st,FILE*f){return (int)TA_CDLGAPSIDESIDEWHITE_StateLoad((struct TA_CDLGAPSIDESIDEWHITE_State**)st,f);}
/* CDLGRAVESTONEDOJI */
static int CDLGRAVESTONEDOJI_lb(const double*o){(void)o;return TA_CDLGRAVESTONEDOJI_Lookback();}
static int CDLGRAVESTONEDOJI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLGRAVESTONEDOJI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLGRAVESTONEDOJI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLGRAVESTONEDOJI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLGRAVESTONEDOJI_si(void**st,const double*o){(void)o;return (int)TA_CDLGRAVESTONEDOJI_StateInit((struct TA_CDLGRAVESTONEDOJI_State**)st);}
static int CDLGRAVESTONEDOJI_ss(void*st,const double*in,void*const*out){return (int)TA_CDLGRAVESTONEDOJI_State((struct TA_CDLGRAVESTONEDOJI_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLGRAVESTONEDOJI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLGRAVESTONEDOJI_BatchState((struct TA_CDLGRAVESTONEDOJI_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLGRAVESTONEDOJI_sf(void**st){return (int)TA_CDLGRAVESTONEDOJI_StateFree((struct TA_CDLGRAVESTONEDOJI_State**)st);}
static int CDLGRAVESTONEDOJI_sv(void*st,FILE*f){return (int)TA_CDLGRAVESTONEDOJI_StateSave((struct TA_CDLGRAVESTONEDOJI_State*)st,f);}
static int CDLGRAVESTONEDOJI_sl(void**st,FILE*f){return (int)TA_CDLGRAVESTONEDOJI_StateLoad((struct TA_CDLGRAVESTONEDOJI_State**)st,f);}
/* CDLHAMMER */
static int CDLHAMMER_lb(const double*o){(void)o;return TA_CDLHAMMER_Lookback();}
static int CDLHAMMER_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLHAMMER(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHAMMER_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLHAMMER(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHAMMER_si(void**st,const double*o){(void)o;return (int)TA_CDLHAMMER_StateInit((struct TA_CDLHAMMER_State**)st);}
static int CDLHAMMER_ss(void*st,const double*in,void*const*out){return (int)TA_CDLHAMMER_State((struct TA_CDLHAMMER_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLHAMMER_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLHAMMER_BatchState((struct TA_CDLHAMMER_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHAMMER_sf(void**st){return (int)TA_CDLHAMMER_StateFree((struct TA_CDLHAMMER_State**)st);}
static int CDLHAMMER_sv(void*st,FILE*f){return (int)TA_CDLHAMMER_StateSave((struct TA_CDLHAMMER_State*)st,f);}
static int CDLHAMMER_sl(void**st,FILE*f){return (int)TA_CDLHAMMER_StateLoad((struct TA_CDLHAMMER_State**)st,f);}
/* CDLHANGINGMAN */
static int CDLHANGINGMAN_lb(const double*o){(void)o;return TA_CDLHANGINGMAN_Lookback();}
static int CDLHANGINGMAN_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLHANGINGMAN(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHANGINGMAN_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLHANGINGMAN(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHANGINGMAN_si(void**st,const double*o){(void)o;return (int)TA_CDLHANGINGMAN_StateInit((struct TA_CDLHANGINGMAN_State**)st);}
static int CDLHANGINGMAN_ss(void*st,const double*in,void*const*out){return (int)TA_CDLHANGINGMAN_State((struct TA_CDLHANGINGMAN_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLHANGINGMAN_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLHANGINGMAN_BatchState((struct TA_CDLHANGINGMAN_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHANGINGMAN_sf(void**st){return (int)TA_CDLHANGINGMAN_StateFree((struct TA_CDLHANGINGMAN_State**)st);}
static int CDLHANGINGMAN_sv(void*st,FILE*f){return (int)TA_CDLHANGINGMAN_StateSave((struct TA_CDLHANGINGMAN_State*)st,f);}
static int CDLHANGINGMAN_sl(void**st,FILE*f){return (int)TA_CDLHANGINGMAN_StateLoad((struct TA_CDLHANGINGMAN_State**)st,f);}
/* CDLHARAMI */
static int CDLHARAMI_lb(const double*o){(void)o;return TA_CDLHARAMI_Lookback();}
static int CDLHARAMI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLHARAMI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHARAMI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLHARAMI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHARAMI_si(void**st,const double*o){(void)o;return (int)TA_CDLHARAMI_StateInit((struct TA_CDLHARAMI_State**)st);}
static int CDLHARAMI_ss(void*st,const double*in,void*const*out){return (int)TA_CDLHARAMI_State((struct TA_CDLHARAMI_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLHARAMI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLHARAMI_BatchState((struct TA_CDLHARAMI_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHARAMI_sf(void**st){return (int)TA_CDLHARAMI_StateFree((struct TA_CDLHARAMI_State**)st);}
static int CDLHARAMI_sv(void*st,FILE*f){return (int)TA_CDLHARAMI_StateSave((struct TA_CDLHARAMI_State*)st,f);}
static int CDLHARAMI_sl(void**st,FILE*f){return (int)TA_CDLHARAMI_StateLoad((struct TA_CDLHARAMI_State**)st,f);}
/* CDLHARAMICROSS */
static int CDLHARAMICROSS_lb(const double*o){(void)o;return TA_CDLHARAMICROSS_Lookback();}
static int CDLHARAMICROSS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLHARAMICROSS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHARAMICROSS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLHARAMICROSS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHARAMICROSS_si(void**st,const double*o){(void)o;return (int)TA_CDLHARAMICROSS_StateInit((struct TA_CDLHARAMICROSS_State**)st);}
static int CDLHARAMICROSS_ss(void*st,const double*in,void*const*out){return (int)TA_CDLHARAMICROSS_State((struct TA_CDLHARAMICROSS_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLHARAMICROSS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLHARAMICROSS_BatchState((struct TA_CDLHARAMICROSS_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHARAMICROSS_sf(void**st){return (int)TA_CDLHARAMICROSS_StateFree((struct TA_CDLHARAMICROSS_State**)st);}
static int CDLHARAMICROSS_sv(void*st,FILE*f){return (int)TA_CDLHARAMICROSS_StateSave((struct TA_CDLHARAMICROSS_State*)st,f);}
static int CDLHARAMICROSS_sl(void**st,FILE*f){return (int)TA_CDLHARAMICROSS_StateLoad((struct TA_CDLHARAMICROSS_State**)st,f);}
/* CDLHIGHWAVE */
static int CDLHIGHWAVE_lb(const double*o){(void)o;return TA_CDLHIGHWAVE_Lookback();}
static int CDLHIGHWAVE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLHIGHWAVE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHIGHWAVE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLHIGHWAVE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHIGHWAVE_si(void**st,const double*o){(void)o;return (int)TA_CDLHIGHWAVE_StateInit((struct TA_CDLHIGHWAVE_State**)st);}
static int CDLHIGHWAVE_ss(void*st,const double*in,void*const*out){return (int)TA_CDLHIGHWAVE_State((struct TA_CDLHIGHWAVE_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLHIGHWAVE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLHIGHWAVE_BatchState((struct TA_CDLHIGHWAVE_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHIGHWAVE_sf(void**st){return (int)TA_CDLHIGHWAVE_StateFree((struct TA_CDLHIGHWAVE_State**)st);}
static int CDLHIGHWAVE_sv(void*st,FILE*f){return (int)TA_CDLHIGHWAVE_StateSave((struct TA_CDLHIGHWAVE_State*)st,f);}
static int CDLHIGHWAVE_sl(void**st,FILE*f){return (int)TA_CDLHIGHWAVE_StateLoad((struct TA_CDLHIGHWAVE_State**)st,f);}
/* CDLHIKKAKE */
static int CDLHIKKAKE_lb(const double*o){(void)o;return TA_CDLHIKKAKE_Lookback();}
static int CDLHIKKAKE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLHIKKAKE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHIKKAKE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLHIKKAKE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHIKKAKE_si(void**st,const double*o){(void)o;return (int)TA_CDLHIKKAKE_StateInit((struct TA_CDLHIKKAKE_State**)st);}
static int CDLHIKKAKE_ss(void*st,const double*in,void*const*out){return (int)TA_CDLHIKKAKE_State((struct TA_CDLHIKKAKE_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLHIKKAKE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLHIKKAKE_BatchState((struct TA_CDLHIKKAKE_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHIKKAKE_sf(void**st){return (int)TA_CDLHIKKAKE_StateFree((struct TA_CDLHIKKAKE_State**)st);}
static int CDLHIKKAKE_sv(void*st,FILE*f){return (int)TA_CDLHIKKAKE_StateSave((struct TA_CDLHIKKAKE_State*)st,f);}
static int CDLHIKKAKE_sl(void**st,FILE*f){return (int)TA_CDLHIKKAKE_StateLoad((struct TA_CDLHIKKAKE_State**)st,f);}
/* CDLHIKKAKEMOD */
static int CDLHIKKAKEMOD_lb(const double*o){(void)o;return TA_CDLHIKKAKEMOD_Lookback();}
static int CDLHIKKAKEMOD_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLHIKKAKEMOD(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHIKKAKEMOD_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLHIKKAKEMOD(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHIKKAKEMOD_si(void**st,const double*o){(void)o;return (int)TA_CDLHIKKAKEMOD_StateInit((struct TA_CDLHIKKAKEMOD_State**)st);}
static int CDLHIKKAKEMOD_ss(void*st,const double*in,void*const*out){return (int)TA_CDLHIKKAKEMOD_State((struct TA_CDLHIKKAKEMOD_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLHIKKAKEMOD_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLHIKKAKEMOD_BatchState((struct TA_CDLHIKKAKEMOD_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHIKKAKEMOD_sf(void**st){return (int)TA_CDLHIKKAKEMOD_StateFree((struct TA_CDLHIKKAKEMOD_State**)st);}
static int CDLHIKKAKEMOD_sv(void*st,FILE*f){return (int)TA_CDLHIKKAKEMOD_StateSave((struct TA_CDLHIKKAKEMOD_State*)st,f);}
static int CDLHIKKAKEMOD_sl(void**st,FILE*f){return (int)TA_CDLHIKKAKEMOD_StateLoad((struct TA_CDLHIKKAKEMOD_State**)st,f);}
/* CDLHOMINGPIGEON */
static int CDLHOMINGPIGEON_lb(const double*o){(void)o;return TA_CDLHOMINGPIGEON_Lookback();}
static int CDLHOMINGPIGEON_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLHOMINGPIGEON(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHOMINGPIGEON_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLHOMINGPIGEON(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHOMINGPIGEON_si(void**st,const double*o){(void)o;return (int)TA_CDLHOMINGPIGEON_StateInit((struct TA_CDLHOMINGPIGEON_State**)st);}
static int CDLHOMINGPIGEON_ss(void*st,const double*in,void*const*out){return (int)TA_CDLHOMINGPIGEON_State((struct TA_CDLHOMINGPIGEON_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLHOMINGPIGEON_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLHOMINGPIGEON_BatchState((struct TA_CDLHOMINGPIGEON_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLHOMINGPIGEON_sf(void**st){return (int)TA_CDLHOMINGPIGEON_StateFree((struct TA_CDLHOMINGPIGEON_State**)st);}
static int CDLHOMINGPIGEON_sv(void*st,FILE*f){return (int)TA_CDLHOMINGPIGEON_StateSave((struct TA_CDLHOMINGPIGEON_State*)st,f);}
static int CDLHOMINGPIGEON_sl(void**st,FILE*f){return (int)TA_CDLHOMINGPIGEON_StateLoad((struct TA_CDLHOMINGPIGEON_State**)st,f);}
/* CDLIDENTICAL3CROWS */
static int CDLIDENTICAL3CROWS_lb(const double*o){(void)o;return TA_CDLIDENTICAL3CROWS_Lookback();}
static int CDLIDENTICAL3CROWS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLIDENTICAL3CROWS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLIDENTICAL3CROWS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLIDENTICAL3CROWS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLIDENTICAL3CROWS_si(void**st,const double*o){(void)o;return (int)TA_CDLIDENTICAL3CROWS_StateInit((struct TA_CDLIDENTICAL3CROWS_State**)st);}
static int CDLIDENTICAL3CROWS_ss(void*st,const double*in,void*const*out){return (int)TA_CDLIDENTICAL3CROWS_State((struct TA_CDLIDENTICAL3CROWS_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLIDENTICAL3CROWS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLIDENTICAL3CROWS_BatchState((struct TA_CDLIDENTICAL3CROWS_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLIDENTICAL3CROWS_sf(void**st){return (int)TA_CDLIDENTICAL3CROWS_StateFree((struct TA_CDLIDENTICAL3CROWS_State**)st);}
static int CDLIDENTICAL3CROWS_sv(void*st,FILE*f){return (int)TA_CDLIDENTICAL3CROWS_StateSave((struct TA_CDLIDENTICAL3CROWS_State*)st,f);}
static int CDLIDENTICAL3CROWS_sl(void**st,FILE*f){return (int)TA_CDLIDENTICAL3CROWS_StateLoad((struct TA_CDLIDENTICAL3CROWS_State**)st,f);}
/* CDLINNECK */
static int CDLINNECK_lb(const double*o){(void)o;return TA_CDLINNECK_Lookback();}
static int CDLINNECK_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLINNECK(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLINNECK_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLINNECK(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLINNECK_si(void**st,const double*o){(void)o;return (int)TA_CDLINNECK_StateInit((struct TA_CDLINNECK_State**)st);}
static int CDLINNECK_ss(void*st,const double*in,void*const*out){return (int)TA_CDLINNECK_State((struct TA_CDLINNECK_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLINNECK_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLINNECK_BatchState((struct TA_CDLINNECK_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLINNECK_sf(void**st){return (int)TA_CDLINNECK_StateFree((struct TA_CDLINNECK_State**)st);}
static int CDLINNECK_sv(void*st,FILE*f){return (int)TA_CDLINNECK_StateSave((struct TA_CDLINNECK_State*)st,f);}
static int CDLINNECK_sl(void**st,FILE*f){return (int)TA_CDLINNECK_StateLoad((struct TA_CDLINNECK_State**)st,f);}
/* CDLINVERTEDHAMMER */
static int CDLINVERTEDHAMMER_lb(const double*o){(void)o;return TA_CDLINVERTEDHAMMER_Lookback();}
static int CDLINVERTEDHAMMER_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLINVERTEDHAMMER(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLINVERTEDHAMMER_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLINVERTEDHAMMER(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLINVERTEDHAMMER_si(void**st,const double*o){(void)o;return (int)TA_CDLINVERTEDHAMMER_StateInit((struct TA_CDLINVERTEDHAMMER_State**)st);}
static int CDLINVERTEDHAMMER_ss(void*st,const double*in,void*const*out){return (int)TA_CDLINVERTEDHAMMER_State((struct TA_CDLINVERTEDHAMMER_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLINVERTEDHAMMER_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLINVERTEDHAMMER_BatchState((struct TA_CDLINVERTEDHAMMER_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLINVERTEDHAMMER_sf(void**st){return (int)TA_CDLINVERTEDHAMMER_StateFree((struct TA_CDLINVERTEDHAMMER_State**)st);}
static int CDLINVERTEDHAMMER_sv(void*st,FILE*f){return (int)TA_CDLINVERTEDHAMMER_StateSave((struct TA_CDLINVERTEDHAMMER_State*)st,f);}
static int CDLINVERTEDHAMMER_sl(void**st,FILE*f){return (int)TA_CDLINVERTEDHAMMER_StateLoad((struct TA_CDLINVERTEDHAMMER_State**)st,f);}
/* CDLKICKING */
static int CDLKICKING_lb(const double*o){(void)o;return TA_CDLKICKING_Lookback();}
static int CDLKICKING_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLKICKING(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLKICKING_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLKICKING(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLKICKING_si(void**st,const double*o){(void)o;return (int)TA_CDLKICKING_StateInit((struct TA_CDLKICKING_State**)st);}
static int CDLKICKING_ss(void*st,const double*in,void*const*out){return (int)TA_CDLKICKING_State((struct TA_CDLKICKING_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLKICKING_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLKICKING_BatchState((struct TA_CDLKICKING_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLKICKING_sf(void**st){return (int)TA_CDLKICKING_StateFree((struct TA_CDLKICKING_State**)st);}
static int CDLKICKING_sv(void*st,FILE*f){return (int)TA_CDLKICKING_StateSave((struct TA_CDLKICKING_State*)st,f);}
static int CDLKICKING_sl(void**st,FILE*f){return (int)TA_CDLKICKING_StateLoad((struct TA_CDLKICKING_State**)st,f);}
/* CDLKICKINGBYLENGTH */
static int CDLKICKINGBYLENGTH_lb(const double*o){(void)o;return TA_CDLKICKINGBYLENGTH_Lookback();}
static int CDLKICKINGBYLENGTH_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLKICKINGBYLENGTH(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLKICKINGBYLENGTH_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLKICKINGBYLENGTH(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLKICKINGBYLENGTH_si(void**st,const double*o){(void)o;return (int)TA_CDLKICKINGBYLENGTH_StateInit((struct TA_CDLKICKINGBYLENGTH_State**)st);}
static int CDLKICKINGBYLENGTH_ss(void*st,const double*in,void*const*out){return (int)TA_CDLKICKINGBYLENGTH_State((struct TA_CDLKICKINGBYLENGTH_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLKICKINGBYLENGTH_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLKICKINGBYLENGTH_BatchState((struct TA_CDLKICKINGBYLENGTH_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLKICKINGBYLENGTH_sf(void**st){return (int)TA_CDLKICKINGBYLENGTH_StateFree((struct TA_CDLKICKINGBYLENGTH_State**)st);}
static int CDLKICKINGBYLENGTH_sv(void*st,FILE*f){return (int)TA_CDLKICKINGBYLENGTH_StateSave((struct TA_CDLKICKINGBYLENGTH_State*)st,f);}
static int CDLKICKINGBYLENGTH_sl(void**st,FILE*f){return (int)TA_CDLKICKINGBYLENGTH_StateLoad((struct TA_CDLKICKINGBYLENGTH_State**)st,f);}
/* CDLLADDERBOTTOM */
static int CDLLADDERBOTTOM_lb(const double*o){(void)o;return TA_CDLLADDERBOTTOM_Lookback();}
static int CDLLADDERBOTTOM_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLLADDERBOTTOM(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLLADDERBOTTOM_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLLADDERBOTTOM(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLLADDERBOTTOM_si(void**st,const double*o){(void)o;return (int)TA_CDLLADDERBOTTOM_StateInit((struct TA_CDLLADDERBOTTOM_State**)st);}
static int CDLLADDERBOTTOM_ss(void*st,const double*in,void*const*out){return (int)TA_CDLLADDERBOTTOM_State((struct TA_CDLLADDERBOTTOM_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLLADDERBOTTOM_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLLADDERBOTTOM_BatchState((struct TA_CDLLADDERBOTTOM_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLLADDERBOTTOM_sf(void**st){return (int)TA_CDLLADDERBOTTOM_StateFree((struct TA_CDLLADDERBOTTOM_State**)st);}
static int CDLLADDERBOTTOM_sv(void*st,FILE*f){return (int)TA_CDLLADDERBOTTOM_StateSave((struct TA_CDLLADDERBOTTOM_State*)st,f);}
static int CDLLADDERBOTTOM_sl(void**st,FILE*f){return (int)TA_CDLLADDERBOTTOM_StateLoad((struct TA_CDLLADDERBOTTOM_State**)st,f);}
/* CDLLONGLEGGEDDOJI */
static int CDLLONGLEGGEDDOJI_lb(const double*o){(void)o;return TA_CDLLONGLEGGEDDOJI_Lookback();}
static int CDLLONGLEGGEDDOJI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLLONGLEGGEDDOJI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLLONGLEGGEDDOJI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLLONGLEGGEDDOJI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLLONGLEGGEDDOJI_si(void**st,const double*o){(void)o;return (int)TA_CDLLONGLEGGEDDOJI_StateInit((struct TA_CDLLONGLEGGEDDOJI_State**)st);}
static int CDLLONGLEGGEDDOJI_ss(void*st,const double*in,void*const*out){return (int)TA_CDLLONGLEGGEDDOJI_State((struct TA_CDLLONGLEGGEDDOJI_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLLONGLEGGEDDOJI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLLONGLEGGEDDOJI_BatchState((struct TA_CDLLONGLEGGEDDOJI_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLLONGLEGGEDDOJI_sf(void**st){return (int)TA_CDLLONGLEGGEDDOJI_StateFree((struct TA_CDLLONGLEGGEDDOJI_State**)st);}
static int CDLLONGLEGGEDDOJI_sv(void*st,FILE*f){return (int)TA_CDLLONGLEGGEDDOJI_StateSave((struct TA_CDLLONGLEGGEDDOJI_State*)st,f);}
static int CDLLONGLEGGEDDOJI_sl(void**st,FILE*f){return (int)TA_CDLLONGLEGGEDDOJI_StateLoad((struct TA_CDLLONGLEGGEDDOJI_State**)st,f);}
/* CDLLONGLINE */
static int CDLLONGLINE_lb(const double*o){(void)o;return TA_CDLLONGLINE_Lookback();}
static int CDLLONGLINE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLLONGLINE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLLONGLINE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLLONGLINE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLLONGLINE_si(void**st,const double*o){(void)o;return (int)TA_CDLLONGLINE_StateInit((struct TA_CDLLONGLINE_State**)st);}
static int CDLLONGLINE_ss(void*st,const double*in,void*const*out){return (int)TA_CDLLONGLINE_State((struct TA_CDLLONGLINE_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLLONGLINE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLLONGLINE_BatchState((struct TA_CDLLONGLINE_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLLONGLINE_sf(void**st){return (int)TA_CDLLONGLINE_StateFree((struct TA_CDLLONGLINE_State**)st);}
static int CDLLONGLINE_sv(void*st,FILE*f){return (int)TA_CDLLONGLINE_StateSave((struct TA_CDLLONGLINE_State*)st,f);}
static int CDLLONGLINE_sl(void**st,FILE*f){return (int)TA_CDLLONGLINE_StateLoad((struct TA_CDLLONGLINE_State**)st,f);}
/* CDLMARUBOZU */
static int CDLMARUBOZU_lb(const double*o){(void)o;return TA_CDLMARUBOZU_Lookback();}
static int CDLMARUBOZU_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLMARUBOZU(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLMARUBOZU_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLMARUBOZU(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLMARUBOZU_si(void**st,const double*o){(void)o;return (int)TA_CDLMARUBOZU_StateInit((struct TA_CDLMARUBOZU_State**)st);}
static int CDLMARUBOZU_ss(void*st,const double*in,void*const*out){return (int)TA_CDLMARUBOZU_State((struct TA_CDLMARUBOZU_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLMARUBOZU_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLMARUBOZU_BatchState((struct TA_CDLMARUBOZU_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLMARUBOZU_sf(void**st){return (int)TA_CDLMARUBOZU_StateFree((struct TA_CDLMARUBOZU_State**)st);}
static int CDLMARUBOZU_sv(void*st,FILE*f){return (int)TA_CDLMARUBOZU_StateSave((struct TA_CDLMARUBOZU_State*)st,f);}
static int CDLMARUBOZU_sl(void**st,FILE*f){return (int)TA_CDLMARUBOZU_StateLoad((struct TA_CDLMARUBOZU_State**)st,f);}
/* CDLMATCHINGLOW */
static int CDLMATCHINGLOW_lb(const double*o){(void)o;return TA_CDLMATCHINGLOW_Lookback();}
static int CDLMATCHINGLOW_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLMATCHINGLOW(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLMATCHINGLOW_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLMATCHINGLOW(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLMATCHINGLOW_si(void**st,const double*o){(void)o;return (int)TA_CDLMATCHINGLOW_StateInit((struct TA_CDLMATCHINGLOW_State**)st);}
static int CDLMATCHINGLOW_ss(void*st,const double*in,void*const*out){return (int)TA_CDLMATCHINGLOW_State((struct TA_CDLMATCHINGLOW_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLMATCHINGLOW_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLMATCHINGLOW_BatchState((struct TA_CDLMATCHINGLOW_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLMATCHINGLOW_sf(void**st){return (int)TA_CDLMATCHINGLOW_StateFree((struct TA_CDLMATCHINGLOW_State**)st);}
static int CDLMATCHINGLOW_sv(void*st,FILE*f){return (int)TA_CDLMATCHINGLOW_StateSave((struct TA_CDLMATCHINGLOW_State*)st,f);}
static int CDLMATCHINGLOW_sl(void**st,FILE*f){return (int)TA_CDLMATCHINGLOW_StateLoad((struct TA_CDLMATCHINGLOW_State**)st,f);}
/* CDLMATHOLD */
static int CDLMATHOLD_lb(const double*o){(void)o;return TA_CDLMATHOLD_Lookback(o[0]);}
static int CDLMATHOLD_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLMATHOLD(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLMATHOLD_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLMATHOLD(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLMATHOLD_si(void**st,const double*o){(void)o;return (int)TA_CDLMATHOLD_StateInit((struct TA_CDLMATHOLD_State**)st,o[0]);}
static int CDLMATHOLD_ss(void*st,const double*in,void*const*out){return (int)TA_CDLMATHOLD_State((struct TA_CDLMATHOLD_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLMATHOLD_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLMATHOLD_BatchState((struct TA_CDLMATHOLD_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLMATHOLD_sf(void**st){return (int)TA_CDLMATHOLD_StateFree((struct TA_CDLMATHOLD_State**)st);}
static int CDLMATHOLD_sv(void*st,FILE*f){return (int)TA_CDLMATHOLD_StateSave((struct TA_CDLMATHOLD_State*)st,f);}
static int CDLMATHOLD_sl(void**st,FILE*f){return (int)TA_CDLMATHOLD_StateLoad((struct TA_CDLMATHOLD_State**)st,f);}
/* CDLMORNINGDOJISTAR */
static int CDLMORNINGDOJISTAR_lb(const double*o){(void)o;return TA_CDLMORNINGDOJISTAR_Lookback(o[0]);}
static int CDLMORNINGDOJISTAR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLMORNINGDOJISTAR(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLMORNINGDOJISTAR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLMORNINGDOJISTAR(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLMORNINGDOJISTAR_si(void**st,const double*o){(void)o;return (int)TA_CDLMORNINGDOJISTAR_StateInit((struct TA_CDLMORNINGDOJISTAR_State**)st,o[0]);}
static int CDLMORNINGDOJISTAR_ss(void*st,const double*in,void*const*out){return (int)TA_CDLMORNINGDOJISTAR_State((struct TA_CDLMORNINGDOJISTAR_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLMORNINGDOJISTAR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLMORNINGDOJISTAR_BatchState((struct TA_CDLMORNINGDOJISTAR_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLMORNINGDOJISTAR_sf(void**st){return (int)TA_CDLMORNINGDOJISTAR_StateFree((struct TA_CDLMORNINGDOJISTAR_State**)st);}
static int CDLMORNINGDOJISTAR_sv(void*st,FILE*f){return (int)TA_CDLMORNINGDOJISTAR_StateSave((struct TA_CDLMORNINGDOJISTAR_State*)st,f);}
static int CDLMORNINGDOJISTAR_sl(void**st,FILE*f){return (int)TA_CDLMORNINGDOJISTAR_StateLoad((struct TA_CDLMORNINGDOJISTAR_State**)st,f);}
/* CDLMORNINGSTAR */
static int CDLMORNINGSTAR_lb(const double*o){(void)o;return TA_CDLMORNINGSTAR_Lookback(o[0]);}
static int CDLMORNINGSTAR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLMORNINGSTAR(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLMORNINGSTAR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLMORNINGSTAR(s,e,in[0],in[1],in[2],in[3],o[0],b,n,(int*)out[0]);}
static int CDLMORNINGSTAR_si(void**st,const double*o){(void)o;return (int)TA_CDLMORNINGSTAR_StateInit((struct TA_CDLMORNINGSTAR_State**)st,o[0]);}
static int CDLMORNINGSTAR_ss(void*st,const double*in,void*const*out){return (int)TA_CDLMORNINGSTAR_State((struct TA_CDLMORNINGSTAR_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLMORNINGSTAR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLMORNINGSTAR_BatchState((struct TA_CDLMORNINGSTAR_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLMORNINGSTAR_sf(void**st){return (int)TA_CDLMORNINGSTAR_StateFree((struct TA_CDLMORNINGSTAR_State**)st);}
static int CDLMORNINGSTAR_sv(void*st,FILE*f){return (int)TA_CDLMORNINGSTAR_StateSave((struct TA_CDLMORNINGSTAR_State*)st,f);}
static int CDLMORNINGSTAR_sl(void**st,FILE*f){return (int)TA_CDLMORNINGSTAR_StateLoad((struct TA_CDLMORNINGSTAR_State**)st,f);}
/* CDLONNECK */
static int CDLONNECK_lb(const double*o){(void)o;return TA_CDLONNECK_Lookback();}
static int CDLONNECK_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLONNECK(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLONNECK_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLONNECK(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLONNECK_si(void**st,const double*o){(void)o;return (int)TA_CDLONNECK_StateInit((struct TA_CDLONNECK_State**)st);}
static int CDLONNECK_ss(void*st,const double*in,void*const*out){return (int)TA_CDLONNECK_State((struct TA_CDLONNECK_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLONNECK_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLONNECK_BatchState((struct TA_CDLONNECK_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLONNECK_sf(void**st){return (int)TA_CDLONNECK_StateFree((struct TA_CDLONNECK_State**)st);}
static int CDLONNECK_sv(void*st,FILE*f){return (int)TA_CDLONNECK_StateSave((struct TA_CDLONNECK_State*)st,f);}
static int CDLONNECK_sl(void**st,FILE*f){return (int)TA_CDLONNECK_StateLoad((struct TA_CDLONNECK_State**)st,f);}
/* CDLPIERCING */
static int CDLPIERCING_lb(const double*o){(void)o;return TA_CDLPIERCING_Lookback();}
static int CDLPIERCING_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLPIERCING(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLPIERCING_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLPIERCING(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLPIERCING_si(void**st,const double*o){(void)o;return (int)TA_CDLPIERCING_StateInit((struct TA_CDLPIERCING_State**)st);}
static int CDLPIERCING_ss(void*st,const double*in,void*const*out){return (int)TA_CDLPIERCING_State((struct TA_CDLPIERCING_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLPIERCING_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLPIERCING_BatchState((struct TA_CDLPIERCING_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLPIERCING_sf(void**st){return (int)TA_CDLPIERCING_StateFree((struct TA_CDLPIERCING_State**)st);}
static int CDLPIERCING_sv(void*st,FILE*f){return (int)TA_CDLPIERCING_StateSave((struct TA_CDLPIERCING_State*)st,f);}
static int CDLPIERCING_sl(void**st,FILE*f){return (int)TA_CDLPIERCING_StateLoad((struct TA_CDLPIERCING_State**)st,f);}
/* CDLRICKSHAWMAN */
static int CDLRICKSHAWMAN_lb(const double*o){(void)o;return TA_CDLRICKSHAWMAN_Lookback();}
static int CDLRICKSHAWMAN_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLRICKSHAWMAN(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLRICKSHAWMAN_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLRICKSHAWMAN(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLRICKSHAWMAN_si(void**st,const double*o){(void)o;return (int)TA_CDLRICKSHAWMAN_StateInit((struct TA_CDLRICKSHAWMAN_State**)st);}
static int CDLRICKSHAWMAN_ss(void*st,const double*in,void*const*out){return (int)TA_CDLRICKSHAWMAN_State((struct TA_CDLRICKSHAWMAN_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLRICKSHAWMAN_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLRICKSHAWMAN_BatchState((struct TA_CDLRICKSHAWMAN_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLRICKSHAWMAN_sf(void**st){return (int)TA_CDLRICKSHAWMAN_StateFree((struct TA_CDLRICKSHAWMAN_State**)st);}
static int CDLRICKSHAWMAN_sv(void*st,FILE*f){return (int)TA_CDLRICKSHAWMAN_StateSave((struct TA_CDLRICKSHAWMAN_State*)st,f);}
static int CDLRICKSHAWMAN_sl(void**st,FILE*f){return (int)TA_CDLRICKSHAWMAN_StateLoad((struct TA_CDLRICKSHAWMAN_State**)st,f);}
/* CDLRISEFALL3METHODS */
static int CDLRISEFALL3METHODS_lb(const double*o){(void)o;return TA_CDLRISEFALL3METHODS_Lookback();}
static int CDLRISEFALL3METHODS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLRISEFALL3METHODS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLRISEFALL3METHODS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLRISEFALL3METHODS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLRISEFALL3METHODS_si(void**st,const double*o){(void)o;return (int)TA_CDLRISEFALL3METHODS_StateInit((struct TA_CDLRISEFALL3METHODS_State**)st);}
static int CDLRISEFALL3METHODS_ss(void*st,const double*in,void*const*out){return (int)TA_CDLRISEFALL3METHODS_State((struct TA_CDLRISEFALL3METHODS_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLRISEFALL3METHODS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLRISEFALL3METHODS_BatchState((struct TA_CDLRISEFALL3METHODS_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLRISEFALL3METHODS_sf(void**st){return (int)TA_CDLRISEFALL3METHODS_StateFree((struct TA_CDLRISEFALL3METHODS_State**)st);}
static int CDLRISEFALL3METHODS_sv(void*st,FILE*f){return (int)TA_CDLRISEFALL3METHODS_StateSave((struct TA_CDLRISEFALL3METHODS_State*)st,f);}
static int CDLRISEFALL3METHODS_sl(void**st,FILE*f){return (int)TA_CDLRISEFALL3METHODS_StateLoad((struct TA_CDLRISEFALL3METHODS_State**)st,f);}
/* CDLSEPARATINGLINES */
static int CDLSEPARATINGLINES_lb(const double*o){(void)o;return TA_CDLSEPARATINGLINES_Lookback();}
static int CDLSEPARATINGLINES_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLSEPARATINGLINES(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSEPARATINGLINES_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLSEPARATINGLINES(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSEPARATINGLINES_si(void**st,const double*o){(void)o;return (int)TA_CDLSEPARATINGLINES_StateInit((struct TA_CDLSEPARATINGLINES_State**)st);}
static int CDLSEPARATINGLINES_ss(void*st,const double*in,void*const*out){return (int)TA_CDLSEPARATINGLINES_State((struct TA_CDLSEPARATINGLINES_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLSEPARATINGLINES_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLSEPARATINGLINES_BatchState((struct TA_CDLSEPARATINGLINES_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSEPARATINGLINES_sf(void**st){return (int)TA_CDLSEPARATINGLINES_StateFree((struct TA_CDLSEPARATINGLINES_State**)st);}
static int CDLSEPARATINGLINES_sv(void*st,FILE*f){return (int)TA_CDLSEPARATINGLINES_StateSave((struct TA_CDLSEPARATINGLINES_State*)st,f);}
static int CDLSEPARATINGLINES_sl(void**st,FILE*f){return (int)TA_CDLSEPARATINGLINES_StateLoad((struct TA_CDLSEPARATINGLINES_State**)st,f);}
/* CDLSHOOTINGSTAR */
static int CDLSHOOTINGSTAR_lb(const double*o){(void)o;return TA_CDLSHOOTINGSTAR_Lookback();}
static int CDLSHOOTINGSTAR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLSHOOTINGSTAR(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSHOOTINGSTAR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLSHOOTINGSTAR(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSHOOTINGSTAR_si(void**st,const double*o){(void)o;return (int)TA_CDLSHOOTINGSTAR_StateInit((struct TA_CDLSHOOTINGSTAR_State**)st);}
static int CDLSHOOTINGSTAR_ss(void*st,const double*in,void*const*out){return (int)TA_CDLSHOOTINGSTAR_State((struct TA_CDLSHOOTINGSTAR_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLSHOOTINGSTAR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLSHOOTINGSTAR_BatchState((struct TA_CDLSHOOTINGSTAR_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSHOOTINGSTAR_sf(void**st){return (int)TA_CDLSHOOTINGSTAR_StateFree((struct TA_CDLSHOOTINGSTAR_State**)st);}
static int CDLSHOOTINGSTAR_sv(void*st,FILE*f){return (int)TA_CDLSHOOTINGSTAR_StateSave((struct TA_CDLSHOOTINGSTAR_State*)st,f);}
static int CDLSHOOTINGSTAR_sl(void**st,FILE*f){return (int)TA_CDLSHOOTINGSTAR_StateLoad((struct TA_CDLSHOOTINGSTAR_State**)st,f);}
/* CDLSHORTLINE */
static int CDLSHORTLINE_lb(const double*o){(void)o;return TA_CDLSHORTLINE_Lookback();}
static int CDLSHORTLINE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLSHORTLINE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSHORTLINE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLSHORTLINE(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSHORTLINE_si(void**st,const double*o){(void)o;return (int)TA_CDLSHORTLINE_StateInit((struct TA_CDLSHORTLINE_State**)st);}
static int CDLSHORTLINE_ss(void*st,const double*in,void*const*out){return (int)TA_CDLSHORTLINE_State((struct TA_CDLSHORTLINE_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLSHORTLINE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLSHORTLINE_BatchState((struct TA_CDLSHORTLINE_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSHORTLINE_sf(void**st){return (int)TA_CDLSHORTLINE_StateFree((struct TA_CDLSHORTLINE_State**)st);}
static int CDLSHORTLINE_sv(void*st,FILE*f){return (int)TA_CDLSHORTLINE_StateSave((struct TA_CDLSHORTLINE_State*)st,f);}
static int CDLSHORTLINE_sl(void**st,FILE*f){return (int)TA_CDLSHORTLINE_StateLoad((struct TA_CDLSHORTLINE_State**)st,f);}
/* CDLSPINNINGTOP */
static int CDLSPINNINGTOP_lb(const double*o){(void)o;return TA_CDLSPINNINGTOP_Lookback();}
static int CDLSPINNINGTOP_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLSPINNINGTOP(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSPINNINGTOP_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLSPINNINGTOP(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSPINNINGTOP_si(void**st,const double*o){(void)o;return (int)TA_CDLSPINNINGTOP_StateInit((struct TA_CDLSPINNINGTOP_State**)st);}
static int CDLSPINNINGTOP_ss(void*st,const double*in,void*const*out){return (int)TA_CDLSPINNINGTOP_State((struct TA_CDLSPINNINGTOP_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLSPINNINGTOP_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLSPINNINGTOP_BatchState((struct TA_CDLSPINNINGTOP_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSPINNINGTOP_sf(void**st){return (int)TA_CDLSPINNINGTOP_StateFree((struct TA_CDLSPINNINGTOP_State**)st);}
static int CDLSPINNINGTOP_sv(void*st,FILE*f){return (int)TA_CDLSPINNINGTOP_StateSave((struct TA_CDLSPINNINGTOP_State*)st,f);}
static int CDLSPINNINGTOP_sl(void**st,FILE*f){return (int)TA_CDLSPINNINGTOP_StateLoad((struct TA_CDLSPINNINGTOP_State**)st,f);}
/* CDLSTALLEDPATTERN */
static int CDLSTALLEDPATTERN_lb(const double*o){(void)o;return TA_CDLSTALLEDPATTERN_Lookback();}
static int CDLSTALLEDPATTERN_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLSTALLEDPATTERN(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSTALLEDPATTERN_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLSTALLEDPATTERN(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSTALLEDPATTERN_si(void**st,const double*o){(void)o;return (int)TA_CDLSTALLEDPATTERN_StateInit((struct TA_CDLSTALLEDPATTERN_State**)st);}
static int CDLSTALLEDPATTERN_ss(void*st,const double*in,void*const*out){return (int)TA_CDLSTALLEDPATTERN_State((struct TA_CDLSTALLEDPATTERN_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLSTALLEDPATTERN_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLSTALLEDPATTERN_BatchState((struct TA_CDLSTALLEDPATTERN_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSTALLEDPATTERN_sf(void**st){return (int)TA_CDLSTALLEDPATTERN_StateFree((struct TA_CDLSTALLEDPATTERN_State**)st);}
static int CDLSTALLEDPATTERN_sv(void*st,FILE*f){return (int)TA_CDLSTALLEDPATTERN_StateSave((struct TA_CDLSTALLEDPATTERN_State*)st,f);}
static int CDLSTALLEDPATTERN_sl(void**st,FILE*f){return (int)TA_CDLSTALLEDPATTERN_StateLoad((struct TA_CDLSTALLEDPATTERN_State**)st,f);}
/* CDLSTICKSANDWICH */
static int CDLSTICKSANDWICH_lb(const double*o){(void)o;return TA_CDLSTICKSANDWICH_Lookback();}
static int CDLSTICKSANDWICH_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLSTICKSANDWICH(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSTICKSANDWICH_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLSTICKSANDWICH(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSTICKSANDWICH_si(void**st,const double*o){(void)o;return (int)TA_CDLSTICKSANDWICH_StateInit((struct TA_CDLSTICKSANDWICH_State**)st);}
static int CDLSTICKSANDWICH_ss(void*st,const double*in,void*const*out){return (int)TA_CDLSTICKSANDWICH_State((struct TA_CDLSTICKSANDWICH_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLSTICKSANDWICH_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLSTICKSANDWICH_BatchState((struct TA_CDLSTICKSANDWICH_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLSTICKSANDWICH_sf(void**st){return (int)TA_CDLSTICKSANDWICH_StateFree((struct TA_CDLSTICKSANDWICH_State**)st);}
static int CDLSTICKSANDWICH_sv(void*st,FILE*f){return (int)TA_CDLSTICKSANDWICH_StateSave((struct TA_CDLSTICKSANDWICH_State*)st,f);}
static int CDLSTICKSANDWICH_sl(void**st,FILE*f){return (int)TA_CDLSTICKSANDWICH_StateLoad((struct TA_CDLSTICKSANDWICH_State**)st,f);}
/* CDLTAKURI */
static int CDLTAKURI_lb(const double*o){(void)o;return TA_CDLTAKURI_Lookback();}
static int CDLTAKURI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLTAKURI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTAKURI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLTAKURI(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTAKURI_si(void**st,const double*o){(void)o;return (int)TA_CDLTAKURI_StateInit((struct TA_CDLTAKURI_State**)st);}
static int CDLTAKURI_ss(void*st,const double*in,void*const*out){return (int)TA_CDLTAKURI_State((struct TA_CDLTAKURI_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLTAKURI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLTAKURI_BatchState((struct TA_CDLTAKURI_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTAKURI_sf(void**st){return (int)TA_CDLTAKURI_StateFree((struct TA_CDLTAKURI_State**)st);}
static int CDLTAKURI_sv(void*st,FILE*f){return (int)TA_CDLTAKURI_StateSave((struct TA_CDLTAKURI_State*)st,f);}
static int CDLTAKURI_sl(void**st,FILE*f){return (int)TA_CDLTAKURI_StateLoad((struct TA_CDLTAKURI_State**)st,f);}
/* CDLTASUKIGAP */
static int CDLTASUKIGAP_lb(const double*o){(void)o;return TA_CDLTASUKIGAP_Lookback();}
static int CDLTASUKIGAP_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLTASUKIGAP(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTASUKIGAP_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLTASUKIGAP(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTASUKIGAP_si(void**st,const double*o){(void)o;return (int)TA_CDLTASUKIGAP_StateInit((struct TA_CDLTASUKIGAP_State**)st);}
static int CDLTASUKIGAP_ss(void*st,const double*in,void*const*out){return (int)TA_CDLTASUKIGAP_State((struct TA_CDLTASUKIGAP_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLTASUKIGAP_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLTASUKIGAP_BatchState((struct TA_CDLTASUKIGAP_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTASUKIGAP_sf(void**st){return (int)TA_CDLTASUKIGAP_StateFree((struct TA_CDLTASUKIGAP_State**)st);}
static int CDLTASUKIGAP_sv(void*st,FILE*f){return (int)TA_CDLTASUKIGAP_StateSave((struct TA_CDLTASUKIGAP_State*)st,f);}
static int CDLTASUKIGAP_sl(void**st,FILE*f){return (int)TA_CDLTASUKIGAP_StateLoad((struct TA_CDLTASUKIGAP_State**)st,f);}
/* CDLTHRUSTING */
static int CDLTHRUSTING_lb(const double*o){(void)o;return TA_CDLTHRUSTING_Lookback();}
static int CDLTHRUSTING_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLTHRUSTING(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTHRUSTING_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLTHRUSTING(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTHRUSTING_si(void**st,const double*o){(void)o;return (int)TA_CDLTHRUSTING_StateInit((struct TA_CDLTHRUSTING_State**)st);}
static int CDLTHRUSTING_ss(void*st,const double*in,void*const*out){return (int)TA_CDLTHRUSTING_State((struct TA_CDLTHRUSTING_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLTHRUSTING_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLTHRUSTING_BatchState((struct TA_CDLTHRUSTING_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTHRUSTING_sf(void**st){return (int)TA_CDLTHRUSTING_StateFree((struct TA_CDLTHRUSTING_State**)st);}
static int CDLTHRUSTING_sv(void*st,FILE*f){return (int)TA_CDLTHRUSTING_StateSave((struct TA_CDLTHRUSTING_State*)st,f);}
static int CDLTHRUSTING_sl(void**st,FILE*f){return (int)TA_CDLTHRUSTING_StateLoad((struct TA_CDLTHRUSTING_State**)st,f);}
/* CDLTRISTAR */
static int CDLTRISTAR_lb(const double*o){(void)o;return TA_CDLTRISTAR_Lookback();}
static int CDLTRISTAR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLTRISTAR(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTRISTAR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLTRISTAR(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTRISTAR_si(void**st,const double*o){(void)o;return (int)TA_CDLTRISTAR_StateInit((struct TA_CDLTRISTAR_State**)st);}
static int CDLTRISTAR_ss(void*st,const double*in,void*const*out){return (int)TA_CDLTRISTAR_State((struct TA_CDLTRISTAR_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLTRISTAR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLTRISTAR_BatchState((struct TA_CDLTRISTAR_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLTRISTAR_sf(void**st){return (int)TA_CDLTRISTAR_StateFree((struct TA_CDLTRISTAR_State**)st);}
static int CDLTRISTAR_sv(void*st,FILE*f){return (int)TA_CDLTRISTAR_StateSave((struct TA_CDLTRISTAR_State*)st,f);}
static int CDLTRISTAR_sl(void**st,FILE*f){return (int)TA_CDLTRISTAR_StateLoad((struct TA_CDLTRISTAR_State**)st,f);}
/* CDLUNIQUE3RIVER */
static int CDLUNIQUE3RIVER_lb(const double*o){(void)o;return TA_CDLUNIQUE3RIVER_Lookback();}
static int CDLUNIQUE3RIVER_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLUNIQUE3RIVER(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLUNIQUE3RIVER_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLUNIQUE3RIVER(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLUNIQUE3RIVER_si(void**st,const double*o){(void)o;return (int)TA_CDLUNIQUE3RIVER_StateInit((struct TA_CDLUNIQUE3RIVER_State**)st);}
static int CDLUNIQUE3RIVER_ss(void*st,const double*in,void*const*out){return (int)TA_CDLUNIQUE3RIVER_State((struct TA_CDLUNIQUE3RIVER_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLUNIQUE3RIVER_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLUNIQUE3RIVER_BatchState((struct TA_CDLUNIQUE3RIVER_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLUNIQUE3RIVER_sf(void**st){return (int)TA_CDLUNIQUE3RIVER_StateFree((struct TA_CDLUNIQUE3RIVER_State**)st);}
static int CDLUNIQUE3RIVER_sv(void*st,FILE*f){return (int)TA_CDLUNIQUE3RIVER_StateSave((struct TA_CDLUNIQUE3RIVER_State*)st,f);}
static int CDLUNIQUE3RIVER_sl(void**st,FILE*f){return (int)TA_CDLUNIQUE3RIVER_StateLoad((struct TA_CDLUNIQUE3RIVER_State**)st,f);}
/* CDLUPSIDEGAP2CROWS */
static int CDLUPSIDEGAP2CROWS_lb(const double*o){(void)o;return TA_CDLUPSIDEGAP2CROWS_Lookback();}
static int CDLUPSIDEGAP2CROWS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLUPSIDEGAP2CROWS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLUPSIDEGAP2CROWS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLUPSIDEGAP2CROWS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLUPSIDEGAP2CROWS_si(void**st,const double*o){(void)o;return (int)TA_CDLUPSIDEGAP2CROWS_StateInit((struct TA_CDLUPSIDEGAP2CROWS_State**)st);}
static int CDLUPSIDEGAP2CROWS_ss(void*st,const double*in,void*const*out){return (int)TA_CDLUPSIDEGAP2CROWS_State((struct TA_CDLUPSIDEGAP2CROWS_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLUPSIDEGAP2CROWS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLUPSIDEGAP2CROWS_BatchState((struct TA_CDLUPSIDEGAP2CROWS_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLUPSIDEGAP2CROWS_sf(void**st){return (int)TA_CDLUPSIDEGAP2CROWS_StateFree((struct TA_CDLUPSIDEGAP2CROWS_State**)st);}
static int CDLUPSIDEGAP2CROWS_sv(void*st,FILE*f){return (int)TA_CDLUPSIDEGAP2CROWS_StateSave((struct TA_CDLUPSIDEGAP2CROWS_State*)st,f);}
static int CDLUPSIDEGAP2CROWS_sl(void**st,FILE*f){return (int)TA_CDLUPSIDEGAP2CROWS_StateLoad((struct TA_CDLUPSIDEGAP2CROWS_State**)st,f);}
/* CDLXSIDEGAP3METHODS */
static int CDLXSIDEGAP3METHODS_lb(const double*o){(void)o;return TA_CDLXSIDEGAP3METHODS_Lookback();}
static int CDLXSIDEGAP3METHODS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CDLXSIDEGAP3METHODS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLXSIDEGAP3METHODS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CDLXSIDEGAP3METHODS(s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLXSIDEGAP3METHODS_si(void**st,const double*o){(void)o;return (int)TA_CDLXSIDEGAP3METHODS_StateInit((struct TA_CDLXSIDEGAP3METHODS_State**)st);}
static int CDLXSIDEGAP3METHODS_ss(void*st,const double*in,void*const*out){return (int)TA_CDLXSIDEGAP3METHODS_State((struct TA_CDLXSIDEGAP3METHODS_State*)st,in[0],in[1],in[2],in[3],(int*)out[0]);}
static int CDLXSIDEGAP3METHODS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CDLXSIDEGAP3METHODS_BatchState((struct TA_CDLXSIDEGAP3METHODS_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(int*)out[0]);}
static int CDLXSIDEGAP3METHODS_sf(void**st){return (int)TA_CDLXSIDEGAP3METHODS_StateFree((struct TA_CDLXSIDEGAP3METHODS_State**)st);}
static int CDLXSIDEGAP3METHODS_sv(void*st,FILE*f){return (int)TA_CDLXSIDEGAP3METHODS_StateSave((struct TA_CDLXSIDEGAP3METHODS_State*)st,f);}
static int CDLXSIDEGAP3METHODS_sl(void**st,FILE*f){return (int)TA_CDLXSIDEGAP3METHODS_StateLoad((struct TA_CDLXSIDEGAP3METHODS_State**)st,f);}
/* CEIL */
static int CEIL_lb(const double*o){(void)o;return TA_CEIL_Lookback();}
static int CEIL_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CEIL(s,e,in[0],b,n,(double*)out[0]);}
static int CEIL_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CEIL(s,e,in[0],b,n,(double*)out[0]);}
static int CEIL_si(void**st,const double*o){(void)o;return (int)TA_CEIL_StateInit((struct TA_CEIL_State**)st);}
static int CEIL_ss(void*st,const double*in,void*const*out){return (int)TA_CEIL_State((struct TA_CEIL_State*)st,in[0],(double*)out[0]);}
static int CEIL_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CEIL_BatchState((struct TA_CEIL_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int CEIL_sf(void**st){return (int)TA_CEIL_StateFree((struct TA_CEIL_State**)st);}
static int CEIL_sv(void*st,FILE*f){return (int)TA_CEIL_StateSave((struct TA_CEIL_State*)st,f);}
static int CEIL_sl(void**st,FILE*f){return (int)TA_CEIL_StateLoad((struct TA_CEIL_State**)st,f);}
/* CMO */
static int CMO_lb(const double*o){(void)o;return TA_CMO_Lookback((int)o[0]);}
static int CMO_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CMO(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int CMO_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CMO(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int CMO_si(void**st,const double*o){(void)o;return (int)TA_CMO_StateInit((struct TA_CMO_State**)st,(int)o[0]);}
static int CMO_ss(void*st,const double*in,void*const*out){return (int)TA_CMO_State((struct TA_CMO_State*)st,in[0],(double*)out[0]);}
static int CMO_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CMO_BatchState((struct TA_CMO_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int CMO_sf(void**st){return (int)TA_CMO_StateFree((struct TA_CMO_State**)st);}
static int CMO_sv(void*st,FILE*f){return (int)TA_CMO_StateSave((struct TA_CMO_State*)st,f);}
static int CMO_sl(void**st,FILE*f){return (int)TA_CMO_StateLoad((struct TA_CMO_State**)st,f);}
/* CORREL */
static int CORREL_lb(const double*o){(void)o;return TA_CORREL_Lookback((int)o[0]);}
static int CORREL_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_CORREL(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int CORREL_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_CORREL(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int CORREL_si(void**st,const double*o){(void)o;return (int)TA_CORREL_StateInit((struct TA_CORREL_State**)st,(int)o[0]);}
static int CORREL_ss(void*st,const double*in,void*const*out){return (int)TA_CORREL_State((struct TA_CORREL_State*)st,in[0],in[1],(double*)out[0]);}
static int CORREL_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_CORREL_BatchState((struct TA_CORREL_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int CORREL_sf(void**st){return (int)TA_CORREL_StateFree((struct TA_CORREL_State**)st);}
static int CORREL_sv(void*st,FILE*f){return (int)TA_CORREL_StateSave((struct TA_CORREL_State*)st,f);}
static int CORREL_sl(void**st,FILE*f){return (int)TA_CORREL_StateLoad((struct TA_CORREL_State**)st,f);}
/* COS */
static int COS_lb(const double*o){(void)o;return TA_COS_Lookback();}
static int COS_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_COS(s,e,in[0],b,n,(double*)out[0]);}
static int COS_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_COS(s,e,in[0],b,n,(double*)out[0]);}
static int COS_si(void**st,const double*o){(void)o;return (int)TA_COS_StateInit((struct TA_COS_State**)st);}
static int COS_ss(void*st,const double*in,void*const*out){return (int)TA_COS_State((struct TA_COS_State*)st,in[0],(double*)out[0]);}
static int COS_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_COS_BatchState((struct TA_COS_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int COS_sf(void**st){return (int)TA_COS_StateFree((struct TA_COS_State**)st);}
static int COS_sv(void*st,FILE*f){return (int)TA_COS_StateSave((struct TA_COS_State*)st,f);}
static int COS_sl(void**st,FILE*f){return (int)TA_COS_StateLoad((struct TA_COS_State**)st,f);}
/* COSH */
static int COSH_lb(const double*o){(void)o;return TA_COSH_Lookback();}
static int COSH_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_COSH(s,e,in[0],b,n,(double*)out[0]);}
static int COSH_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_COSH(s,e,in[0],b,n,(double*)out[0]);}
static int COSH_si(void**st,const double*o){(void)o;return (int)TA_COSH_StateInit((struct TA_COSH_State**)st);}
static int COSH_ss(void*st,const double*in,void*const*out){return (int)TA_COSH_State((struct TA_COSH_State*)st,in[0],(double*)out[0]);}
static int COSH_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_COSH_BatchState((struct TA_COSH_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int COSH_sf(void**st){return (int)TA_COSH_StateFree((struct TA_COSH_State**)st);}
static int COSH_sv(void*st,FILE*f){return (int)TA_COSH_StateSave((struct TA_COSH_State*)st,f);}
static int COSH_sl(void**st,FILE*f){return (int)TA_COSH_StateLoad((struct TA_COSH_State**)st,f);}
/* DEMA */
static int DEMA_lb(const double*o){(void)o;return TA_DEMA_Lookback((int)o[0]);}
static int DEMA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_DEMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int DEMA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_DEMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int DEMA_si(void**st,const double*o){(void)o;return (int)TA_DEMA_StateInit((struct TA_DEMA_State**)st,(int)o[0]);}
static int DEMA_ss(void*st,const double*in,void*const*out){return (int)TA_DEMA_State((struct TA_DEMA_State*)st,in[0],(double*)out[0]);}
static int DEMA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_DEMA_BatchState((struct TA_DEMA_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int DEMA_sf(void**st){return (int)TA_DEMA_StateFree((struct TA_DEMA_State**)st);}
static int DEMA_sv(void*st,FILE*f){return (int)TA_DEMA_StateSave((struct TA_DEMA_State*)st,f);}
static int DEMA_sl(void**st,FILE*f){return (int)TA_DEMA_StateLoad((struct TA_DEMA_State**)st,f);}
/* DIV */
static int DIV_lb(const double*o){(void)o;return TA_DIV_Lookback();}
static int DIV_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_DIV(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int DIV_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_DIV(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int DIV_si(void**st,const double*o){(void)o;return (int)TA_DIV_StateInit((struct TA_DIV_State**)st);}
static int DIV_ss(void*st,const double*in,void*const*out){return (int)TA_DIV_State((struct TA_DIV_State*)st,in[0],in[1],(double*)out[0]);}
static int DIV_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_DIV_BatchState((struct TA_DIV_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int DIV_sf(void**st){return (int)TA_DIV_StateFree((struct TA_DIV_State**)st);}
static int DIV_sv(void*st,FILE*f){return (int)TA_DIV_StateSave((struct TA_DIV_State*)st,f);}
static int DIV_sl(void**st,FILE*f){return (int)TA_DIV_StateLoad((struct TA_DIV_State**)st,f);}
/* DX */
static int DX_lb(const double*o){(void)o;return TA_DX_Lookback((int)o[0]);}
static int DX_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_DX(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int DX_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_DX(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int DX_si(void**st,const double*o){(void)o;return (int)TA_DX_StateInit((struct TA_DX_State**)st,(int)o[0]);}
static int DX_ss(void*st,const double*in,void*const*out){return (int)TA_DX_State((struct TA_DX_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int DX_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_DX_BatchState((struct TA_DX_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int DX_sf(void**st){return (int)TA_DX_StateFree((struct TA_DX_State**)st);}
static int DX_sv(void*st,FILE*f){return (int)TA_DX_StateSave((struct TA_DX_State*)st,f);}
static int DX_sl(void**st,FILE*f){return (int)TA_DX_StateLoad((struct TA_DX_State**)st,f);}
/* EMA */
static int EMA_lb(const double*o){(void)o;return TA_EMA_Lookback((int)o[0]);}
static int EMA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_EMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int EMA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_EMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int EMA_si(void**st,const double*o){(void)o;return (int)TA_EMA_StateInit((struct TA_EMA_State**)st,(int)o[0]);}
static int EMA_ss(void*st,const double*in,void*const*out){return (int)TA_EMA_State((struct TA_EMA_State*)st,in[0],(double*)out[0]);}
static int EMA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_EMA_BatchState((struct TA_EMA_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int EMA_sf(void**st){return (int)TA_EMA_StateFree((struct TA_EMA_State**)st);}
static int EMA_sv(void*st,FILE*f){return (int)TA_EMA_StateSave((struct TA_EMA_State*)st,f);}
static int EMA_sl(void**st,FILE*f){return (int)TA_EMA_StateLoad((struct TA_EMA_State**)st,f);}
/* EXP */
static int EXP_lb(const double*o){(void)o;return TA_EXP_Lookback();}
static int EXP_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_EXP(s,e,in[0],b,n,(double*)out[0]);}
static int EXP_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_EXP(s,e,in[0],b,n,(double*)out[0]);}
static int EXP_si(void**st,const double*o){(void)o;return (int)TA_EXP_StateInit((struct TA_EXP_State**)st);}
static int EXP_ss(void*st,const double*in,void*const*out){return (int)TA_EXP_State((struct TA_EXP_State*)st,in[0],(double*)out[0]);}
static int EXP_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_EXP_BatchState((struct TA_EXP_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int EXP_sf(void**st){return (int)TA_EXP_StateFree((struct TA_EXP_State**)st);}
static int EXP_sv(void*st,FILE*f){return (int)TA_EXP_StateSave((struct TA_EXP_State*)st,f);}
static int EXP_sl(void**st,FILE*f){return (int)TA_EXP_StateLoad((struct TA_EXP_State**)st,f);}
/* FLOOR */
static int FLOOR_lb(const double*o){(void)o;return TA_FLOOR_Lookback();}
static int FLOOR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_FLOOR(s,e,in[0],b,n,(double*)out[0]);}
static int FLOOR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_FLOOR(s,e,in[0],b,n,(double*)out[0]);}
static int FLOOR_si(void**st,const double*o){(void)o;return (int)TA_FLOOR_StateInit((struct TA_FLOOR_State**)st);}
static int FLOOR_ss(void*st,const double*in,void*const*out){return (int)TA_FLOOR_State((struct TA_FLOOR_State*)st,in[0],(double*)out[0]);}
static int FLOOR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_FLOOR_BatchState((struct TA_FLOOR_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int FLOOR_sf(void**st){return (int)TA_FLOOR_StateFree((struct TA_FLOOR_State**)st);}
static int FLOOR_sv(void*st,FILE*f){return (int)TA_FLOOR_StateSave((struct TA_FLOOR_State*)st,f);}
static int FLOOR_sl(void**st,FILE*f){return (int)TA_FLOOR_StateLoad((struct TA_FLOOR_State**)st,f);}
/* HT_DCPERIOD */
static int HT_DCPERIOD_lb(const double*o){(void)o;return TA_HT_DCPERIOD_Lookback();}
static int HT_DCPERIOD_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_HT_DCPERIOD(s,e,in[0],b,n,(double*)out[0]);}
static int HT_DCPERIOD_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_HT_DCPERIOD(s,e,in[0],b,n,(double*)out[0]);}
static int HT_DCPERIOD_si(void**st,const double*o){(void)o;return (int)TA_HT_DCPERIOD_StateInit((struct TA_HT_DCPERIOD_State**)st);}
static int HT_DCPERIOD_ss(void*st,const double*in,void*const*out){return (int)TA_HT_DCPERIOD_State((struct TA_HT_DCPERIOD_State*)st,in[0],(double*)out[0]);}
static int HT_DCPERIOD_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_HT_DCPERIOD_BatchState((struct TA_HT_DCPERIOD_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int HT_DCPERIOD_sf(void**st){return (int)TA_HT_DCPERIOD_StateFree((struct TA_HT_DCPERIOD_State**)st);}
static int HT_DCPERIOD_sv(void*st,FILE*f){return (int)TA_HT_DCPERIOD_StateSave((struct TA_HT_DCPERIOD_State*)st,f);}
static int HT_DCPERIOD_sl(void**st,FILE*f){return (int)TA_HT_DCPERIOD_StateLoad((struct TA_HT_DCPERIOD_State**)st,f);}
/* HT_DCPHASE */
static int HT_DCPHASE_lb(const double*o){(void)o;return TA_HT_DCPHASE_Lookback();}
static int HT_DCPHASE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_HT_DCPHASE(s,e,in[0],b,n,(double*)out[0]);}
static int HT_DCPHASE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_HT_DCPHASE(s,e,in[0],b,n,(double*)out[0]);}
static int HT_DCPHASE_si(void**st,const double*o){(void)o;return (int)TA_HT_DCPHASE_StateInit((struct TA_HT_DCPHASE_State**)st);}
static int HT_DCPHASE_ss(void*st,const double*in,void*const*out){return (int)TA_HT_DCPHASE_State((struct TA_HT_DCPHASE_State*)st,in[0],(double*)out[0]);}
static int HT_DCPHASE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_HT_DCPHASE_BatchState((struct TA_HT_DCPHASE_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int HT_DCPHASE_sf(void**st){return (int)TA_HT_DCPHASE_StateFree((struct TA_HT_DCPHASE_State**)st);}
static int HT_DCPHASE_sv(void*st,FILE*f){return (int)TA_HT_DCPHASE_StateSave((struct TA_HT_DCPHASE_State*)st,f);}
static int HT_DCPHASE_sl(void**st,FILE*f){return (int)TA_HT_DCPHASE_StateLoad((struct TA_HT_DCPHASE_State**)st,f);}
/* HT_PHASOR */
static int HT_PHASOR_lb(const double*o){(void)o;return TA_HT_PHASOR_Lookback();}
static int HT_PHASOR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_HT_PHASOR(s,e,in[0],b,n,(double*)out[0],(double*)out[1]);}
static int HT_PHASOR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_HT_PHASOR(s,e,in[0],b,n,(double*)out[0],(double*)out[1]);}
static int HT_PHASOR_si(void**st,const double*o){(void)o;return (int)TA_HT_PHASOR_StateInit((struct TA_HT_PHASOR_State**)st);}
static int HT_PHASOR_ss(void*st,const double*in,void*const*out){return (int)TA_HT_PHASOR_State((struct TA_HT_PHASOR_State*)st,in[0],(double*)out[0],(double*)out[1]);}
static int HT_PHASOR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_HT_PHASOR_BatchState((struct TA_HT_PHASOR_State*)st,s,e,in[0],b,n,(double*)out[0],(double*)out[1]);}
static int HT_PHASOR_sf(void**st){return (int)TA_HT_PHASOR_StateFree((struct TA_HT_PHASOR_State**)st);}
static int HT_PHASOR_sv(void*st,FILE*f){return (int)TA_HT_PHASOR_StateSave((struct TA_HT_PHASOR_State*)st,f);}
static int HT_PHASOR_sl(void**st,FILE*f){return (int)TA_HT_PHASOR_StateLoad((struct TA_HT_PHASOR_State**)st,f);}
/* HT_SINE */
static int HT_SINE_lb(const double*o){(void)o;return TA_HT_SINE_Lookback();}
static int HT_SINE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_HT_SINE(s,e,in[0],b,n,(double*)out[0],(double*)out[1]);}
static int HT_SINE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_HT_SINE(s,e,in[0],b,n,(double*)out[0],(double*)out[1]);}
static int HT_SINE_si(void**st,const double*o){(void)o;return (int)TA_HT_SINE_StateInit((struct TA_HT_SINE_State**)st);}
static int HT_SINE_ss(void*st,const double*in,void*const*out){return (int)TA_HT_SINE_State((struct TA_HT_SINE_State*)st,in[0],(double*)out[0],(double*)out[1]);}
static int HT_SINE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_HT_SINE_BatchState((struct TA_HT_SINE_State*)st,s,e,in[0],b,n,(double*)out[0],(double*)out[1]);}
static int HT_SINE_sf(void**st){return (int)TA_HT_SINE_StateFree((struct TA_HT_SINE_State**)st);}
static int HT_SINE_sv(void*st,FILE*f){return (int)TA_HT_SINE_StateSave((struct TA_HT_SINE_State*)st,f);}
static int HT_SINE_sl(void**st,FILE*f){return (int)TA_HT_SINE_StateLoad((struct TA_HT_SINE_State**)st,f);}
/* HT_TRENDLINE */
static int HT_TRENDLINE_lb(const double*o){(void)o;return TA_HT_TRENDLINE_Lookback();}
static int HT_TRENDLINE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_HT_TRENDLINE(s,e,in[0],b,n,(double*)out[0]);}
static int HT_TRENDLINE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_HT_TRENDLINE(s,e,in[0],b,n,(double*)out[0]);}
static int HT_TRENDLINE_si(void**st,const double*o){(void)o;return (int)TA_HT_TRENDLINE_StateInit((struct TA_HT_TRENDLINE_State**)st);}
static int HT_TRENDLINE_ss(void*st,const double*in,void*const*out){return (int)TA_HT_TRENDLINE_State((struct TA_HT_TRENDLINE_State*)st,in[0],(double*)out[0]);}
static int HT_TRENDLINE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_HT_TRENDLINE_BatchState((struct TA_HT_TRENDLINE_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int HT_TRENDLINE_sf(void**st){return (int)TA_HT_TRENDLINE_StateFree((struct TA_HT_TRENDLINE_State**)st);}
static int HT_TRENDLINE_sv(void*st,FILE*f){return (int)TA_HT_TRENDLINE_StateSave((struct TA_HT_TRENDLINE_State*)st,f);}
static int HT_TRENDLINE_sl(void**st,FILE*f){return (int)TA_HT_TRENDLINE_StateLoad((struct TA_HT_TRENDLINE_State**)st,f);}
/* HT_TRENDMODE */
static int HT_TRENDMODE_lb(const double*o){(void)o;return TA_HT_TRENDMODE_Lookback();}
static int HT_TRENDMODE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_HT_TRENDMODE(s,e,in[0],b,n,(int*)out[0]);}
static int HT_TRENDMODE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_HT_TRENDMODE(s,e,in[0],b,n,(int*)out[0]);}
static int HT_TRENDMODE_si(void**st,const double*o){(void)o;return (int)TA_HT_TRENDMODE_StateInit((struct TA_HT_TRENDMODE_State**)st);}
static int HT_TRENDMODE_ss(void*st,const double*in,void*const*out){return (int)TA_HT_TRENDMODE_State((struct TA_HT_TRENDMODE_State*)st,in[0],(int*)out[0]);}
static int HT_TRENDMODE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_HT_TRENDMODE_BatchState((struct TA_HT_TRENDMODE_State*)st,s,e,in[0],b,n,(int*)out[0]);}
static int HT_TRENDMODE_sf(void**st){return (int)TA_HT_TRENDMODE_StateFree((struct TA_HT_TRENDMODE_State**)st);}
static int HT_TRENDMODE_sv(void*st,FILE*f){return (int)TA_HT_TRENDMODE_StateSave((struct TA_HT_TRENDMODE_State*)st,f);}
static int HT_TRENDMODE_sl(void**st,FILE*f){return (int)TA_HT_TRENDMODE_StateLoad((struct TA_HT_TRENDMODE_State**)st,f);}
/* IMI */
static int IMI_lb(const double*o){(void)o;return TA_IMI_Lookback((int)o[0]);}
static int IMI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_IMI(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int IMI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_IMI(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int IMI_si(void**st,const double*o){(void)o;return (int)TA_IMI_StateInit((struct TA_IMI_State**)st,(int)o[0]);}
static int IMI_ss(void*st,const double*in,void*const*out){return (int)TA_IMI_State((struct TA_IMI_State*)st,in[0],in[1],(double*)out[0]);}
static int IMI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_IMI_BatchState((struct TA_IMI_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int IMI_sf(void**st){return (int)TA_IMI_StateFree((struct TA_IMI_State**)st);}
static int IMI_sv(void*st,FILE*f){return (int)TA_IMI_StateSave((struct TA_IMI_State*)st,f);}
static int IMI_sl(void**st,FILE*f){return (int)TA_IMI_StateLoad((struct TA_IMI_State**)st,f);}
/* KAMA */
static int KAMA_lb(const double*o){(void)o;return TA_KAMA_Lookback((int)o[0]);}
static int KAMA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_KAMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int KAMA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_KAMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int KAMA_si(void**st,const double*o){(void)o;return (int)TA_KAMA_StateInit((struct TA_KAMA_State**)st,(int)o[0]);}
static int KAMA_ss(void*st,const double*in,void*const*out){return (int)TA_KAMA_State((struct TA_KAMA_State*)st,in[0],(double*)out[0]);}
static int KAMA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_KAMA_BatchState((struct TA_KAMA_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int KAMA_sf(void**st){return (int)TA_KAMA_StateFree((struct TA_KAMA_State**)st);}
static int KAMA_sv(void*st,FILE*f){return (int)TA_KAMA_StateSave((struct TA_KAMA_State*)st,f);}
static int KAMA_sl(void**st,FILE*f){return (int)TA_KAMA_StateLoad((struct TA_KAMA_State**)st,f);}
/* LINEARREG */
static int LINEARREG_lb(const double*o){(void)o;return TA_LINEARREG_Lookback((int)o[0]);}
static int LINEARREG_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_LINEARREG(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int LINEARREG_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_LINEARREG(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int LINEARREG_si(void**st,const double*o){(void)o;return (int)TA_LINEARREG_StateInit((struct TA_LINEARREG_State**)st,(int)o[0]);}
static int LINEARREG_ss(void*st,const double*in,void*const*out){return (int)TA_LINEARREG_State((struct TA_LINEARREG_State*)st,in[0],(double*)out[0]);}
static int LINEARREG_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_LINEARREG_BatchState((struct TA_LINEARREG_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int LINEARREG_sf(void**st){return (int)TA_LINEARREG_StateFree((struct TA_LINEARREG_State**)st);}
static int LINEARREG_sv(void*st,FILE*f){return (int)TA_LINEARREG_StateSave((struct TA_LINEARREG_State*)st,f);}
static int LINEARREG_sl(void**st,FILE*f){return (int)TA_LINEARREG_StateLoad((struct TA_LINEARREG_State**)st,f);}
/* LINEARREG_ANGLE */
static int LINEARREG_ANGLE_lb(const double*o){(void)o;return TA_LINEARREG_ANGLE_Lookback((int)o[0]);}
static int LINEARREG_ANGLE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_LINEARREG_ANGLE(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int LINEARREG_ANGLE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_LINEARREG_ANGLE(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int LINEARREG_ANGLE_si(void**st,const double*o){(void)o;return (int)TA_LINEARREG_ANGLE_StateInit((struct TA_LINEARREG_ANGLE_State**)st,(int)o[0]);}
static int LINEARREG_ANGLE_ss(void*st,const double*in,void*const*out){return (int)TA_LINEARREG_ANGLE_State((struct TA_LINEARREG_ANGLE_State*)st,in[0],(double*)out[0]);}
static int LINEARREG_ANGLE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_LINEARREG_ANGLE_BatchState((struct TA_LINEARREG_ANGLE_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int LINEARREG_ANGLE_sf(void**st){return (int)TA_LINEARREG_ANGLE_StateFree((struct TA_LINEARREG_ANGLE_State**)st);}
static int LINEARREG_ANGLE_sv(void*st,FILE*f){return (int)TA_LINEARREG_ANGLE_StateSave((struct TA_LINEARREG_ANGLE_State*)st,f);}
static int LINEARREG_ANGLE_sl(void**st,FILE*f){return (int)TA_LINEARREG_ANGLE_StateLoad((struct TA_LINEARREG_ANGLE_State**)st,f);}
/* LINEARREG_INTERCEPT */
static int LINEARREG_INTERCEPT_lb(const double*o){(void)o;return TA_LINEARREG_INTERCEPT_Lookback((int)o[0]);}
static int LINEARREG_INTERCEPT_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_LINEARREG_INTERCEPT(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int LINEARREG_INTERCEPT_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_LINEARREG_INTERCEPT(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int LINEARREG_INTERCEPT_si(void**st,const double*o){(void)o;return (int)TA_LINEARREG_INTERCEPT_StateInit((struct TA_LINEARREG_INTERCEPT_State**)st,(int)o[0]);}
static int LINEARREG_INTERCEPT_ss(void*st,const double*in,void*const*out){return (int)TA_LINEARREG_INTERCEPT_State((struct TA_LINEARREG_INTERCEPT_State*)st,in[0],(double*)out[0]);}
static int LINEARREG_INTERCEPT_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_LINEARREG_INTERCEPT_BatchState((struct TA_LINEARREG_INTERCEPT_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int LINEARREG_INTERCEPT_sf(void**st){return (int)TA_LINEARREG_INTERCEPT_StateFree((struct TA_LINEARREG_INTERCEPT_State**)st);}
static int LINEARREG_INTERCEPT_sv(void*st,FILE*f){return (int)TA_LINEARREG_INTERCEPT_StateSave((struct TA_LINEARREG_INTERCEPT_State*)st,f);}
static int LINEARREG_INTERCEPT_sl(void**st,FILE*f){return (int)TA_LINEARREG_INTERCEPT_StateLoad((struct TA_LINEARREG_INTERCEPT_State**)st,f);}
/* LINEARREG_SLOPE */
static int LINEARREG_SLOPE_lb(const double*o){(void)o;return TA_LINEARREG_SLOPE_Lookback((int)o[0]);}
static int LINEARREG_SLOPE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_LINEARREG_SLOPE(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int LINEARREG_SLOPE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_LINEARREG_SLOPE(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int LINEARREG_SLOPE_si(void**st,const double*o){(void)o;return (int)TA_LINEARREG_SLOPE_StateInit((struct TA_LINEARREG_SLOPE_State**)st,(int)o[0]);}
static int LINEARREG_SLOPE_ss(void*st,const double*in,void*const*out){return (int)TA_LINEARREG_SLOPE_State((struct TA_LINEARREG_SLOPE_State*)st,in[0],(double*)out[0]);}
static int LINEARREG_SLOPE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_LINEARREG_SLOPE_BatchState((struct TA_LINEARREG_SLOPE_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int LINEARREG_SLOPE_sf(void**st){return (int)TA_LINEARREG_SLOPE_StateFree((struct TA_LINEARREG_SLOPE_State**)st);}
static int LINEARREG_SLOPE_sv(void*st,FILE*f){return (int)TA_LINEARREG_SLOPE_StateSave((struct TA_LINEARREG_SLOPE_State*)st,f);}
static int LINEARREG_SLOPE_sl(void**st,FILE*f){return (int)TA_LINEARREG_SLOPE_StateLoad((struct TA_LINEARREG_SLOPE_State**)st,f);}
/* LN */
static int LN_lb(const double*o){(void)o;return TA_LN_Lookback();}
static int LN_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_LN(s,e,in[0],b,n,(double*)out[0]);}
static int LN_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_LN(s,e,in[0],b,n,(double*)out[0]);}
static int LN_si(void**st,const double*o){(void)o;return (int)TA_LN_StateInit((struct TA_LN_State**)st);}
static int LN_ss(void*st,const double*in,void*const*out){return (int)TA_LN_State((struct TA_LN_State*)st,in[0],(double*)out[0]);}
static int LN_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_LN_BatchState((struct TA_LN_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int LN_sf(void**st){return (int)TA_LN_StateFree((struct TA_LN_State**)st);}
static int LN_sv(void*st,FILE*f){return (int)TA_LN_StateSave((struct TA_LN_State*)st,f);}
static int LN_sl(void**st,FILE*f){return (int)TA_LN_StateLoad((struct TA_LN_State**)st,f);}
/* LOG10 */
static int LOG10_lb(const double*o){(void)o;return TA_LOG10_Lookback();}
static int LOG10_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_LOG10(s,e,in[0],b,n,(double*)out[0]);}
static int LOG10_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_LOG10(s,e,in[0],b,n,(double*)out[0]);}
static int LOG10_si(void**st,const double*o){(void)o;return (int)TA_LOG10_StateInit((struct TA_LOG10_State**)st);}
static int LOG10_ss(void*st,const double*in,void*const*out){return (int)TA_LOG10_State((struct TA_LOG10_State*)st,in[0],(double*)out[0]);}
static int LOG10_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_LOG10_BatchState((struct TA_LOG10_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int LOG10_sf(void**st){return (int)TA_LOG10_StateFree((struct TA_LOG10_State**)st);}
static int LOG10_sv(void*st,FILE*f){return (int)TA_LOG10_StateSave((struct TA_LOG10_State*)st,f);}
static int LOG10_sl(void**st,FILE*f){return (int)TA_LOG10_StateLoad((struct TA_LOG10_State**)st,f);}
/* MA */
static int MA_lb(const double*o){(void)o;return TA_MA_Lookback((int)o[0],(TA_MAType)(int)o[1]);}
static int MA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MA(s,e,in[0],(int)o[0],(TA_MAType)(int)o[1],b,n,(double*)out[0]);}
static int MA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MA(s,e,in[0],(int)o[0],(TA_MAType)(int)o[1],b,n,(double*)out[0]);}
static int MA_si(void**st,const double*o){(void)o;return (int)TA_MA_StateInit((struct TA_MA_State**)st,(int)o[0],(TA_MAType)(int)o[1]);}
static int MA_ss(void*st,const double*in,void*const*out){return (int)TA_MA_State((struct TA_MA_State*)st,in[0],(double*)out[0]);}
static int MA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MA_BatchState((struct TA_MA_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int MA_sf(void**st){return (int)TA_MA_StateFree((struct TA_MA_State**)st);}
static int MA_sv(void*st,FILE*f){return (int)TA_MA_StateSave((struct TA_MA_State*)st,f);}
static int MA_sl(void**st,FILE*f){return (int)TA_MA_StateLoad((struct TA_MA_State**)st,f);}
/* MACD */
static int MACD_lb(const double*o){(void)o;return TA_MACD_Lookback((int)o[0],(int)o[1],(int)o[2]);}
static int MACD_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MACD(s,e,in[0],(int)o[0],(int)o[1],(int)o[2],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACD_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MACD(s,e,in[0],(int)o[0],(int)o[1],(int)o[2],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACD_si(void**st,const double*o){(void)o;return (int)TA_MACD_StateInit((struct TA_MACD_State**)st,(int)o[0],(int)o[1],(int)o[2]);}
static int MACD_ss(void*st,const double*in,void*const*out){return (int)TA_MACD_State((struct TA_MACD_State*)st,in[0],(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACD_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MACD_BatchState((struct TA_MACD_State*)st,s,e,in[0],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACD_sf(void**st){return (int)TA_MACD_StateFree((struct TA_MACD_State**)st);}
static int MACD_sv(void*st,FILE*f){return (int)TA_MACD_StateSave((struct TA_MACD_State*)st,f);}
static int MACD_sl(void**st,FILE*f){return (int)TA_MACD_StateLoad((struct TA_MACD_State**)st,f);}
/* MACDEXT */
static int MACDEXT_lb(const double*o){(void)o;return TA_MACDEXT_Lookback((int)o[0],(TA_MAType)(int)o[1],(int)o[2],(TA_MAType)(int)o[3],(int)o[4],(TA_MAType)(int)o[5]);}
static int MACDEXT_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MACDEXT(s,e,in[0],(int)o[0],(TA_MAType)(int)o[1],(int)o[2],(TA_MAType)(int)o[3],(int)o[4],(TA_MAType)(int)o[5],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACDEXT_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MACDEXT(s,e,in[0],(int)o[0],(TA_MAType)(int)o[1],(int)o[2],(TA_MAType)(int)o[3],(int)o[4],(TA_MAType)(int)o[5],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACDEXT_si(void**st,const double*o){(void)o;return (int)TA_MACDEXT_StateInit((struct TA_MACDEXT_State**)st,(int)o[0],(TA_MAType)(int)o[1],(int)o[2],(TA_MAType)(int)o[3],(int)o[4],(TA_MAType)(int)o[5]);}
static int MACDEXT_ss(void*st,const double*in,void*const*out){return (int)TA_MACDEXT_State((struct TA_MACDEXT_State*)st,in[0],(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACDEXT_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MACDEXT_BatchState((struct TA_MACDEXT_State*)st,s,e,in[0],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACDEXT_sf(void**st){return (int)TA_MACDEXT_StateFree((struct TA_MACDEXT_State**)st);}
static int MACDEXT_sv(void*st,FILE*f){return (int)TA_MACDEXT_StateSave((struct TA_MACDEXT_State*)st,f);}
static int MACDEXT_sl(void**st,FILE*f){return (int)TA_MACDEXT_StateLoad((struct TA_MACDEXT_State**)st,f);}
/* MACDFIX */
static int MACDFIX_lb(const double*o){(void)o;return TA_MACDFIX_Lookback((int)o[0]);}
static int MACDFIX_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MACDFIX(s,e,in[0],(int)o[0],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACDFIX_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MACDFIX(s,e,in[0],(int)o[0],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACDFIX_si(void**st,const double*o){(void)o;return (int)TA_MACDFIX_StateInit((struct TA_MACDFIX_State**)st,(int)o[0]);}
static int MACDFIX_ss(void*st,const double*in,void*const*out){return (int)TA_MACDFIX_State((struct TA_MACDFIX_State*)st,in[0],(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACDFIX_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MACDFIX_BatchState((struct TA_MACDFIX_State*)st,s,e,in[0],b,n,(double*)out[0],(double*)out[1],(double*)out[2]);}
static int MACDFIX_sf(void**st){return (int)TA_MACDFIX_StateFree((struct TA_MACDFIX_State**)st);}
static int MACDFIX_sv(void*st,FILE*f){return (int)TA_MACDFIX_StateSave((struct TA_MACDFIX_State*)st,f);}
static int MACDFIX_sl(void**st,FILE*f){return (int)TA_MACDFIX_StateLoad((struct TA_MACDFIX_State**)st,f);}
/* MAMA */
static int MAMA_lb(const double*o){(void)o;return TA_MAMA_Lookback(o[0],o[1]);}
static int MAMA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MAMA(s,e,in[0],o[0],o[1],b,n,(double*)out[0],(double*)out[1]);}
static int MAMA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MAMA(s,e,in[0],o[0],o[1],b,n,(double*)out[0],(double*)out[1]);}
static int MAMA_si(void**st,const double*o){(void)o;return (int)TA_MAMA_StateInit((struct TA_MAMA_State**)st,o[0],o[1]);}
static int MAMA_ss(void*st,const double*in,void*const*out){return (int)TA_MAMA_State((struct TA_MAMA_State*)st,in[0],(double*)out[0],(double*)out[1]);}
static int MAMA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MAMA_BatchState((struct TA_MAMA_State*)st,s,e,in[0],b,n,(double*)out[0],(double*)out[1]);}
static int MAMA_sf(void**st){return (int)TA_MAMA_StateFree((struct TA_MAMA_State**)st);}
static int MAMA_sv(void*st,FILE*f){return (int)TA_MAMA_StateSave((struct TA_MAMA_State*)st,f);}
static int MAMA_sl(void**st,FILE*f){return (int)TA_MAMA_StateLoad((struct TA_MAMA_State**)st,f);}
/* MAVP */
static int MAVP_lb(const double*o){(void)o;return TA_MAVP_Lookback((int)o[0],(int)o[1],(TA_MAType)(int)o[2]);}
static int MAVP_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MAVP(s,e,in[0],in[1],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],b,n,(double*)out[0]);}
static int MAVP_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MAVP(s,e,in[0],in[1],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],b,n,(double*)out[0]);}
static int MAVP_si(void**st,const double*o){(void)o;return (int)TA_MAVP_StateInit((struct TA_MAVP_State**)st,(int)o[0],(int)o[1],(TA_MAType)(int)o[2]);}
static int MAVP_ss(void*st,const double*in,void*const*out){return (int)TA_MAVP_State((struct TA_MAVP_State*)st,in[0],in[1],(double*)out[0]);}
static int MAVP_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MAVP_BatchState((struct TA_MAVP_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int MAVP_sf(void**st){return (int)TA_MAVP_StateFree((struct TA_MAVP_State**)st);}
static int MAVP_sv(void*st,FILE*f){return (int)TA_MAVP_StateSave((struct TA_MAVP_State*)st,f);}
static int MAVP_sl(void**st,FILE*f){return (int)TA_MAVP_StateLoad((struct TA_MAVP_State**)st,f);}
/* MAX */
static int MAX_lb(const double*o){(void)o;return TA_MAX_Lookback((int)o[0]);}
static int MAX_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MAX(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int MAX_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MAX(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int MAX_si(void**st,const double*o){(void)o;return (int)TA_MAX_StateInit((struct TA_MAX_State**)st,(int)o[0]);}
static int MAX_ss(void*st,const double*in,void*const*out){return (int)TA_MAX_State((struct TA_MAX_State*)st,in[0],(double*)out[0]);}
static int MAX_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MAX_BatchState((struct TA_MAX_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int MAX_sf(void**st){return (int)TA_MAX_StateFree((struct TA_MAX_State**)st);}
static int MAX_sv(void*st,FILE*f){return (int)TA_MAX_StateSave((struct TA_MAX_State*)st,f);}
static int MAX_sl(void**st,FILE*f){return (int)TA_MAX_StateLoad((struct TA_MAX_State**)st,f);}
/* MAXINDEX */
static int MAXINDEX_lb(const double*o){(void)o;return TA_MAXINDEX_Lookback((int)o[0]);}
static int MAXINDEX_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MAXINDEX(s,e,in[0],(int)o[0],b,n,(int*)out[0]);}
static int MAXINDEX_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MAXINDEX(s,e,in[0],(int)o[0],b,n,(int*)out[0]);}
static int MAXINDEX_si(void**st,const double*o){(void)o;return (int)TA_MAXINDEX_StateInit((struct TA_MAXINDEX_State**)st,(int)o[0]);}
static int MAXINDEX_ss(void*st,const double*in,void*const*out){return (int)TA_MAXINDEX_State((struct TA_MAXINDEX_State*)st,in[0],(int*)out[0]);}
static int MAXINDEX_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MAXINDEX_BatchState((struct TA_MAXINDEX_State*)st,s,e,in[0],b,n,(int*)out[0]);}
static int MAXINDEX_sf(void**st){return (int)TA_MAXINDEX_StateFree((struct TA_MAXINDEX_State**)st);}
static int MAXINDEX_sv(void*st,FILE*f){return (int)TA_MAXINDEX_StateSave((struct TA_MAXINDEX_State*)st,f);}
static int MAXINDEX_sl(void**st,FILE*f){return (int)TA_MAXINDEX_StateLoad((struct TA_MAXINDEX_State**)st,f);}
/* MEDPRICE */
static int MEDPRICE_lb(const double*o){(void)o;return TA_MEDPRICE_Lookback();}
static int MEDPRICE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MEDPRICE(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int MEDPRICE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MEDPRICE(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int MEDPRICE_si(void**st,const double*o){(void)o;return (int)TA_MEDPRICE_StateInit((struct TA_MEDPRICE_State**)st);}
static int MEDPRICE_ss(void*st,const double*in,void*const*out){return (int)TA_MEDPRICE_State((struct TA_MEDPRICE_State*)st,in[0],in[1],(double*)out[0]);}
static int MEDPRICE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MEDPRICE_BatchState((struct TA_MEDPRICE_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int MEDPRICE_sf(void**st){return (int)TA_MEDPRICE_StateFree((struct TA_MEDPRICE_State**)st);}
static int MEDPRICE_sv(void*st,FILE*f){return (int)TA_MEDPRICE_StateSave((struct TA_MEDPRICE_State*)st,f);}
static int MEDPRICE_sl(void**st,FILE*f){return (int)TA_MEDPRICE_StateLoad((struct TA_MEDPRICE_State**)st,f);}
/* MFI */
static int MFI_lb(const double*o){(void)o;return TA_MFI_Lookback((int)o[0]);}
static int MFI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MFI(s,e,in[0],in[1],in[2],in[3],(int)o[0],b,n,(double*)out[0]);}
static int MFI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MFI(s,e,in[0],in[1],in[2],in[3],(int)o[0],b,n,(double*)out[0]);}
static int MFI_si(void**st,const double*o){(void)o;return (int)TA_MFI_StateInit((struct TA_MFI_State**)st,(int)o[0]);}
static int MFI_ss(void*st,const double*in,void*const*out){return (int)TA_MFI_State((struct TA_MFI_State*)st,in[0],in[1],in[2],in[3],(double*)out[0]);}
static int MFI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MFI_BatchState((struct TA_MFI_State*)st,s,e,in[0],in[1],in[2],in[3],b,n,(double*)out[0]);}
static int MFI_sf(void**st){return (int)TA_MFI_StateFree((struct TA_MFI_State**)st);}
static int MFI_sv(void*st,FILE*f){return (int)TA_MFI_StateSave((struct TA_MFI_State*)st,f);}
static int MFI_sl(void**st,FILE*f){return (int)TA_MFI_StateLoad((struct TA_MFI_State**)st,f);}
/* MIDPOINT */
static int MIDPOINT_lb(const double*o){(void)o;return TA_MIDPOINT_Lookback((int)o[0]);}
static int MIDPOINT_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MIDPOINT(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int MIDPOINT_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MIDPOINT(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int MIDPOINT_si(void**st,const double*o){(void)o;return (int)TA_MIDPOINT_StateInit((struct TA_MIDPOINT_State**)st,(int)o[0]);}
static int MIDPOINT_ss(void*st,const double*in,void*const*out){return (int)TA_MIDPOINT_State((struct TA_MIDPOINT_State*)st,in[0],(double*)out[0]);}
static int MIDPOINT_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MIDPOINT_BatchState((struct TA_MIDPOINT_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int MIDPOINT_sf(void**st){return (int)TA_MIDPOINT_StateFree((struct TA_MIDPOINT_State**)st);}
static int MIDPOINT_sv(void*st,FILE*f){return (int)TA_MIDPOINT_StateSave((struct TA_MIDPOINT_State*)st,f);}
static int MIDPOINT_sl(void**st,FILE*f){return (int)TA_MIDPOINT_StateLoad((struct TA_MIDPOINT_State**)st,f);}
/* MIDPRICE */
static int MIDPRICE_lb(const double*o){(void)o;return TA_MIDPRICE_Lookback((int)o[0]);}
static int MIDPRICE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MIDPRICE(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int MIDPRICE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MIDPRICE(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int MIDPRICE_si(void**st,const double*o){(void)o;return (int)TA_MIDPRICE_StateInit((struct TA_MIDPRICE_State**)st,(int)o[0]);}
static int MIDPRICE_ss(void*st,const double*in,void*const*out){return (int)TA_MIDPRICE_State((struct TA_MIDPRICE_State*)st,in[0],in[1],(double*)out[0]);}
static int MIDPRICE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MIDPRICE_BatchState((struct TA_MIDPRICE_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int MIDPRICE_sf(void**st){return (int)TA_MIDPRICE_StateFree((struct TA_MIDPRICE_State**)st);}
static int MIDPRICE_sv(void*st,FILE*f){return (int)TA_MIDPRICE_StateSave((struct TA_MIDPRICE_State*)st,f);}
static int MIDPRICE_sl(void**st,FILE*f){return (int)TA_MIDPRICE_StateLoad((struct TA_MIDPRICE_State**)st,f);}
/* MIN */
static int MIN_lb(const double*o){(void)o;return TA_MIN_Lookback((int)o[0]);}
static int MIN_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MIN(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int MIN_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MIN(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int MIN_si(void**st,const double*o){(void)o;return (int)TA_MIN_StateInit((struct TA_MIN_State**)st,(int)o[0]);}
static int MIN_ss(void*st,const double*in,void*const*out){return (int)TA_MIN_State((struct TA_MIN_State*)st,in[0],(double*)out[0]);}
static int MIN_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MIN_BatchState((struct TA_MIN_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int MIN_sf(void**st){return (int)TA_MIN_StateFree((struct TA_MIN_State**)st);}
static int MIN_sv(void*st,FILE*f){return (int)TA_MIN_StateSave((struct TA_MIN_State*)st,f);}
static int MIN_sl(void**st,FILE*f){return (int)TA_MIN_StateLoad((struct TA_MIN_State**)st,f);}
/* MININDEX */
static int MININDEX_lb(const double*o){(void)o;return TA_MININDEX_Lookback((int)o[0]);}
static int MININDEX_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MININDEX(s,e,in[0],(int)o[0],b,n,(int*)out[0]);}
static int MININDEX_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MININDEX(s,e,in[0],(int)o[0],b,n,(int*)out[0]);}
static int MININDEX_si(void**st,const double*o){(void)o;return (int)TA_MININDEX_StateInit((struct TA_MININDEX_State**)st,(int)o[0]);}
static int MININDEX_ss(void*st,const double*in,void*const*out){return (int)TA_MININDEX_State((struct TA_MININDEX_State*)st,in[0],(int*)out[0]);}
static int MININDEX_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MININDEX_BatchState((struct TA_MININDEX_State*)st,s,e,in[0],b,n,(int*)out[0]);}
static int MININDEX_sf(void**st){return (int)TA_MININDEX_StateFree((struct TA_MININDEX_State**)st);}
static int MININDEX_sv(void*st,FILE*f){return (int)TA_MININDEX_StateSave((struct TA_MININDEX_State*)st,f);}
static int MININDEX_sl(void**st,FILE*f){return (int)TA_MININDEX_StateLoad((struct TA_MININDEX_State**)st,f);}
/* MINMAX */
static int MINMAX_lb(const double*o){(void)o;return TA_MINMAX_Lookback((int)o[0]);}
static int MINMAX_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MINMAX(s,e,in[0],(int)o[0],b,n,(double*)out[0],(double*)out[1]);}
static int MINMAX_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MINMAX(s,e,in[0],(int)o[0],b,n,(double*)out[0],(double*)out[1]);}
static int MINMAX_si(void**st,const double*o){(void)o;return (int)TA_MINMAX_StateInit((struct TA_MINMAX_State**)st,(int)o[0]);}
static int MINMAX_ss(void*st,const double*in,void*const*out){return (int)TA_MINMAX_State((struct TA_MINMAX_State*)st,in[0],(double*)out[0],(double*)out[1]);}
static int MINMAX_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MINMAX_BatchState((struct TA_MINMAX_State*)st,s,e,in[0],b,n,(double*)out[0],(double*)out[1]);}
static int MINMAX_sf(void**st){return (int)TA_MINMAX_StateFree((struct TA_MINMAX_State**)st);}
static int MINMAX_sv(void*st,FILE*f){return (int)TA_MINMAX_StateSave((struct TA_MINMAX_State*)st,f);}
static int MINMAX_sl(void**st,FILE*f){return (int)TA_MINMAX_StateLoad((struct TA_MINMAX_State**)st,f);}
/* MINMAXINDEX */
static int MINMAXINDEX_lb(const double*o){(void)o;return TA_MINMAXINDEX_Lookback((int)o[0]);}
static int MINMAXINDEX_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MINMAXINDEX(s,e,in[0],(int)o[0],b,n,(int*)out[0],(int*)out[1]);}
static int MINMAXINDEX_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MINMAXINDEX(s,e,in[0],(int)o[0],b,n,(int*)out[0],(int*)out[1]);}
static int MINMAXINDEX_si(void**st,const double*o){(void)o;return (int)TA_MINMAXINDEX_StateInit((struct TA_MINMAXINDEX_State**)st,(int)o[0]);}
static int MINMAXINDEX_ss(void*st,const double*in,void*const*out){return (int)TA_MINMAXINDEX_State((struct TA_MINMAXINDEX_State*)st,in[0],(int*)out[0],(int*)out[1]);}
static int MINMAXINDEX_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MINMAXINDEX_BatchState((struct TA_MINMAXINDEX_State*)st,s,e,in[0],b,n,(int*)out[0],(int*)out[1]);}
static int MINMAXINDEX_sf(void**st){return (int)TA_MINMAXINDEX_StateFree((struct TA_MINMAXINDEX_State**)st);}
static int MINMAXINDEX_sv(void*st,FILE*f){return (int)TA_MINMAXINDEX_StateSave((struct TA_MINMAXINDEX_State*)st,f);}
static int MINMAXINDEX_sl(void**st,FILE*f){return (int)TA_MINMAXINDEX_StateLoad((struct TA_MINMAXINDEX_State**)st,f);}
/* MINUS_DI */
static int MINUS_DI_lb(const double*o){(void)o;return TA_MINUS_DI_Lookback((int)o[0]);}
static int MINUS_DI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MINUS_DI(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int MINUS_DI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MINUS_DI(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int MINUS_DI_si(void**st,const double*o){(void)o;return (int)TA_MINUS_DI_StateInit((struct TA_MINUS_DI_State**)st,(int)o[0]);}
static int MINUS_DI_ss(void*st,const double*in,void*const*out){return (int)TA_MINUS_DI_State((struct TA_MINUS_DI_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int MINUS_DI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MINUS_DI_BatchState((struct TA_MINUS_DI_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int MINUS_DI_sf(void**st){return (int)TA_MINUS_DI_StateFree((struct TA_MINUS_DI_State**)st);}
static int MINUS_DI_sv(void*st,FILE*f){return (int)TA_MINUS_DI_StateSave((struct TA_MINUS_DI_State*)st,f);}
static int MINUS_DI_sl(void**st,FILE*f){return (int)TA_MINUS_DI_StateLoad((struct TA_MINUS_DI_State**)st,f);}
/* MINUS_DM */
static int MINUS_DM_lb(const double*o){(void)o;return TA_MINUS_DM_Lookback((int)o[0]);}
static int MINUS_DM_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MINUS_DM(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int MINUS_DM_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MINUS_DM(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int MINUS_DM_si(void**st,const double*o){(void)o;return (int)TA_MINUS_DM_StateInit((struct TA_MINUS_DM_State**)st,(int)o[0]);}
static int MINUS_DM_ss(void*st,const double*in,void*const*out){return (int)TA_MINUS_DM_State((struct TA_MINUS_DM_State*)st,in[0],in[1],(double*)out[0]);}
static int MINUS_DM_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MINUS_DM_BatchState((struct TA_MINUS_DM_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int MINUS_DM_sf(void**st){return (int)TA_MINUS_DM_StateFree((struct TA_MINUS_DM_State**)st);}
static int MINUS_DM_sv(void*st,FILE*f){return (int)TA_MINUS_DM_StateSave((struct TA_MINUS_DM_State*)st,f);}
static int MINUS_DM_sl(void**st,FILE*f){return (int)TA_MINUS_DM_StateLoad((struct TA_MINUS_DM_State**)st,f);}
/* MOM */
static int MOM_lb(const double*o){(void)o;return TA_MOM_Lookback((int)o[0]);}
static int MOM_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MOM(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int MOM_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MOM(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int MOM_si(void**st,const double*o){(void)o;return (int)TA_MOM_StateInit((struct TA_MOM_State**)st,(int)o[0]);}
static int MOM_ss(void*st,const double*in,void*const*out){return (int)TA_MOM_State((struct TA_MOM_State*)st,in[0],(double*)out[0]);}
static int MOM_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MOM_BatchState((struct TA_MOM_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int MOM_sf(void**st){return (int)TA_MOM_StateFree((struct TA_MOM_State**)st);}
static int MOM_sv(void*st,FILE*f){return (int)TA_MOM_StateSave((struct TA_MOM_State*)st,f);}
static int MOM_sl(void**st,FILE*f){return (int)TA_MOM_StateLoad((struct TA_MOM_State**)st,f);}
/* MULT */
static int MULT_lb(const double*o){(void)o;return TA_MULT_Lookback();}
static int MULT_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_MULT(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int MULT_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_MULT(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int MULT_si(void**st,const double*o){(void)o;return (int)TA_MULT_StateInit((struct TA_MULT_State**)st);}
static int MULT_ss(void*st,const double*in,void*const*out){return (int)TA_MULT_State((struct TA_MULT_State*)st,in[0],in[1],(double*)out[0]);}
static int MULT_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_MULT_BatchState((struct TA_MULT_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int MULT_sf(void**st){return (int)TA_MULT_StateFree((struct TA_MULT_State**)st);}
static int MULT_sv(void*st,FILE*f){return (int)TA_MULT_StateSave((struct TA_MULT_State*)st,f);}
static int MULT_sl(void**st,FILE*f){return (int)TA_MULT_StateLoad((struct TA_MULT_State**)st,f);}
/* NATR */
static int NATR_lb(const double*o){(void)o;return TA_NATR_Lookback((int)o[0]);}
static int NATR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_NATR(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int NATR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_NATR(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int NATR_si(void**st,const double*o){(void)o;return (int)TA_NATR_StateInit((struct TA_NATR_State**)st,(int)o[0]);}
static int NATR_ss(void*st,const double*in,void*const*out){return (int)TA_NATR_State((struct TA_NATR_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int NATR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_NATR_BatchState((struct TA_NATR_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int NATR_sf(void**st){return (int)TA_NATR_StateFree((struct TA_NATR_State**)st);}
static int NATR_sv(void*st,FILE*f){return (int)TA_NATR_StateSave((struct TA_NATR_State*)st,f);}
static int NATR_sl(void**st,FILE*f){return (int)TA_NATR_StateLoad((struct TA_NATR_State**)st,f);}
/* NVI */
static int NVI_lb(const double*o){(void)o;return TA_NVI_Lookback();}
static int NVI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_NVI(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int NVI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_NVI(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int NVI_si(void**st,const double*o){(void)o;return (int)TA_NVI_StateInit((struct TA_NVI_State**)st);}
static int NVI_ss(void*st,const double*in,void*const*out){return (int)TA_NVI_State((struct TA_NVI_State*)st,in[0],in[1],(double*)out[0]);}
static int NVI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_NVI_BatchState((struct TA_NVI_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int NVI_sf(void**st){return (int)TA_NVI_StateFree((struct TA_NVI_State**)st);}
static int NVI_sv(void*st,FILE*f){return (int)TA_NVI_StateSave((struct TA_NVI_State*)st,f);}
static int NVI_sl(void**st,FILE*f){return (int)TA_NVI_StateLoad((struct TA_NVI_State**)st,f);}
/* OBV */
static int OBV_lb(const double*o){(void)o;return TA_OBV_Lookback();}
static int OBV_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_OBV(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int OBV_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_OBV(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int OBV_si(void**st,const double*o){(void)o;return (int)TA_OBV_StateInit((struct TA_OBV_State**)st);}
static int OBV_ss(void*st,const double*in,void*const*out){return (int)TA_OBV_State((struct TA_OBV_State*)st,in[0],in[1],(double*)out[0]);}
static int OBV_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_OBV_BatchState((struct TA_OBV_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int OBV_sf(void**st){return (int)TA_OBV_StateFree((struct TA_OBV_State**)st);}
static int OBV_sv(void*st,FILE*f){return (int)TA_OBV_StateSave((struct TA_OBV_State*)st,f);}
static int OBV_sl(void**st,FILE*f){return (int)TA_OBV_StateLoad((struct TA_OBV_State**)st,f);}
/* PLUS_DI */
static int PLUS_DI_lb(const double*o){(void)o;return TA_PLUS_DI_Lookback((int)o[0]);}
static int PLUS_DI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_PLUS_DI(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int PLUS_DI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_PLUS_DI(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int PLUS_DI_si(void**st,const double*o){(void)o;return (int)TA_PLUS_DI_StateInit((struct TA_PLUS_DI_State**)st,(int)o[0]);}
static int PLUS_DI_ss(void*st,const double*in,void*const*out){return (int)TA_PLUS_DI_State((struct TA_PLUS_DI_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int PLUS_DI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_PLUS_DI_BatchState((struct TA_PLUS_DI_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int PLUS_DI_sf(void**st){return (int)TA_PLUS_DI_StateFree((struct TA_PLUS_DI_State**)st);}
static int PLUS_DI_sv(void*st,FILE*f){return (int)TA_PLUS_DI_StateSave((struct TA_PLUS_DI_State*)st,f);}
static int PLUS_DI_sl(void**st,FILE*f){return (int)TA_PLUS_DI_StateLoad((struct TA_PLUS_DI_State**)st,f);}
/* PLUS_DM */
static int PLUS_DM_lb(const double*o){(void)o;return TA_PLUS_DM_Lookback((int)o[0]);}
static int PLUS_DM_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_PLUS_DM(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int PLUS_DM_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_PLUS_DM(s,e,in[0],in[1],(int)o[0],b,n,(double*)out[0]);}
static int PLUS_DM_si(void**st,const double*o){(void)o;return (int)TA_PLUS_DM_StateInit((struct TA_PLUS_DM_State**)st,(int)o[0]);}
static int PLUS_DM_ss(void*st,const double*in,void*const*out){return (int)TA_PLUS_DM_State((struct TA_PLUS_DM_State*)st,in[0],in[1],(double*)out[0]);}
static int PLUS_DM_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_PLUS_DM_BatchState((struct TA_PLUS_DM_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int PLUS_DM_sf(void**st){return (int)TA_PLUS_DM_StateFree((struct TA_PLUS_DM_State**)st);}
static int PLUS_DM_sv(void*st,FILE*f){return (int)TA_PLUS_DM_StateSave((struct TA_PLUS_DM_State*)st,f);}
static int PLUS_DM_sl(void**st,FILE*f){return (int)TA_PLUS_DM_StateLoad((struct TA_PLUS_DM_State**)st,f);}
/* PPO */
static int PPO_lb(const double*o){(void)o;return TA_PPO_Lookback((int)o[0],(int)o[1],(TA_MAType)(int)o[2]);}
static int PPO_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_PPO(s,e,in[0],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],b,n,(double*)out[0]);}
static int PPO_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_PPO(s,e,in[0],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],b,n,(double*)out[0]);}
static int PPO_si(void**st,const double*o){(void)o;return (int)TA_PPO_StateInit((struct TA_PPO_State**)st,(int)o[0],(int)o[1],(TA_MAType)(int)o[2]);}
static int PPO_ss(void*st,const double*in,void*const*out){return (int)TA_PPO_State((struct TA_PPO_State*)st,in[0],(double*)out[0]);}
static int PPO_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_PPO_BatchState((struct TA_PPO_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int PPO_sf(void**st){return (int)TA_PPO_StateFree((struct TA_PPO_State**)st);}
static int PPO_sv(void*st,FILE*f){return (int)TA_PPO_StateSave((struct TA_PPO_State*)st,f);}
static int PPO_sl(void**st,FILE*f){return (int)TA_PPO_StateLoad((struct TA_PPO_State**)st,f);}
/* PVI */
static int PVI_lb(const double*o){(void)o;return TA_PVI_Lookback();}
static int PVI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_PVI(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int PVI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_PVI(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int PVI_si(void**st,const double*o){(void)o;return (int)TA_PVI_StateInit((struct TA_PVI_State**)st);}
static int PVI_ss(void*st,const double*in,void*const*out){return (int)TA_PVI_State((struct TA_PVI_State*)st,in[0],in[1],(double*)out[0]);}
static int PVI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_PVI_BatchState((struct TA_PVI_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int PVI_sf(void**st){return (int)TA_PVI_StateFree((struct TA_PVI_State**)st);}
static int PVI_sv(void*st,FILE*f){return (int)TA_PVI_StateSave((struct TA_PVI_State*)st,f);}
static int PVI_sl(void**st,FILE*f){return (int)TA_PVI_StateLoad((struct TA_PVI_State**)st,f);}
/* PVT */
static int PVT_lb(const double*o){(void)o;return TA_PVT_Lookback();}
static int PVT_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_PVT(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int PVT_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_PVT(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int PVT_si(void**st,const double*o){(void)o;return (int)TA_PVT_StateInit((struct TA_PVT_State**)st);}
static int PVT_ss(void*st,const double*in,void*const*out){return (int)TA_PVT_State((struct TA_PVT_State*)st,in[0],in[1],(double*)out[0]);}
static int PVT_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_PVT_BatchState((struct TA_PVT_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int PVT_sf(void**st){return (int)TA_PVT_StateFree((struct TA_PVT_State**)st);}
static int PVT_sv(void*st,FILE*f){return (int)TA_PVT_StateSave((struct TA_PVT_State*)st,f);}
static int PVT_sl(void**st,FILE*f){return (int)TA_PVT_StateLoad((struct TA_PVT_State**)st,f);}
/* ROC */
static int ROC_lb(const double*o){(void)o;return TA_ROC_Lookback((int)o[0]);}
static int ROC_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ROC(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int ROC_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ROC(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int ROC_si(void**st,const double*o){(void)o;return (int)TA_ROC_StateInit((struct TA_ROC_State**)st,(int)o[0]);}
static int ROC_ss(void*st,const double*in,void*const*out){return (int)TA_ROC_State((struct TA_ROC_State*)st,in[0],(double*)out[0]);}
static int ROC_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ROC_BatchState((struct TA_ROC_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int ROC_sf(void**st){return (int)TA_ROC_StateFree((struct TA_ROC_State**)st);}
static int ROC_sv(void*st,FILE*f){return (int)TA_ROC_StateSave((struct TA_ROC_State*)st,f);}
static int ROC_sl(void**st,FILE*f){return (int)TA_ROC_StateLoad((struct TA_ROC_State**)st,f);}
/* ROCP */
static int ROCP_lb(const double*o){(void)o;return TA_ROCP_Lookback((int)o[0]);}
static int ROCP_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ROCP(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int ROCP_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ROCP(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int ROCP_si(void**st,const double*o){(void)o;return (int)TA_ROCP_StateInit((struct TA_ROCP_State**)st,(int)o[0]);}
static int ROCP_ss(void*st,const double*in,void*const*out){return (int)TA_ROCP_State((struct TA_ROCP_State*)st,in[0],(double*)out[0]);}
static int ROCP_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ROCP_BatchState((struct TA_ROCP_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int ROCP_sf(void**st){return (int)TA_ROCP_StateFree((struct TA_ROCP_State**)st);}
static int ROCP_sv(void*st,FILE*f){return (int)TA_ROCP_StateSave((struct TA_ROCP_State*)st,f);}
static int ROCP_sl(void**st,FILE*f){return (int)TA_ROCP_StateLoad((struct TA_ROCP_State**)st,f);}
/* ROCR */
static int ROCR_lb(const double*o){(void)o;return TA_ROCR_Lookback((int)o[0]);}
static int ROCR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ROCR(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int ROCR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ROCR(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int ROCR_si(void**st,const double*o){(void)o;return (int)TA_ROCR_StateInit((struct TA_ROCR_State**)st,(int)o[0]);}
static int ROCR_ss(void*st,const double*in,void*const*out){return (int)TA_ROCR_State((struct TA_ROCR_State*)st,in[0],(double*)out[0]);}
static int ROCR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ROCR_BatchState((struct TA_ROCR_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int ROCR_sf(void**st){return (int)TA_ROCR_StateFree((struct TA_ROCR_State**)st);}
static int ROCR_sv(void*st,FILE*f){return (int)TA_ROCR_StateSave((struct TA_ROCR_State*)st,f);}
static int ROCR_sl(void**st,FILE*f){return (int)TA_ROCR_StateLoad((struct TA_ROCR_State**)st,f);}
/* ROCR100 */
static int ROCR100_lb(const double*o){(void)o;return TA_ROCR100_Lookback((int)o[0]);}
static int ROCR100_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ROCR100(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int ROCR100_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ROCR100(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int ROCR100_si(void**st,const double*o){(void)o;return (int)TA_ROCR100_StateInit((struct TA_ROCR100_State**)st,(int)o[0]);}
static int ROCR100_ss(void*st,const double*in,void*const*out){return (int)TA_ROCR100_State((struct TA_ROCR100_State*)st,in[0],(double*)out[0]);}
static int ROCR100_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ROCR100_BatchState((struct TA_ROCR100_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int ROCR100_sf(void**st){return (int)TA_ROCR100_StateFree((struct TA_ROCR100_State**)st);}
static int ROCR100_sv(void*st,FILE*f){return (int)TA_ROCR100_StateSave((struct TA_ROCR100_State*)st,f);}
static int ROCR100_sl(void**st,FILE*f){return (int)TA_ROCR100_StateLoad((struct TA_ROCR100_State**)st,f);}
/* RSI */
static int RSI_lb(const double*o){(void)o;return TA_RSI_Lookback((int)o[0]);}
static int RSI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_RSI(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int RSI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_RSI(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int RSI_si(void**st,const double*o){(void)o;return (int)TA_RSI_StateInit((struct TA_RSI_State**)st,(int)o[0]);}
static int RSI_ss(void*st,const double*in,void*const*out){return (int)TA_RSI_State((struct TA_RSI_State*)st,in[0],(double*)out[0]);}
static int RSI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_RSI_BatchState((struct TA_RSI_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int RSI_sf(void**st){return (int)TA_RSI_StateFree((struct TA_RSI_State**)st);}
static int RSI_sv(void*st,FILE*f){return (int)TA_RSI_StateSave((struct TA_RSI_State*)st,f);}
static int RSI_sl(void**st,FILE*f){return (int)TA_RSI_StateLoad((struct TA_RSI_State**)st,f);}
/* SAR */
static int SAR_lb(const double*o){(void)o;return TA_SAR_Lookback(o[0],o[1]);}
static int SAR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_SAR(s,e,in[0],in[1],o[0],o[1],b,n,(double*)out[0]);}
static int SAR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_SAR(s,e,in[0],in[1],o[0],o[1],b,n,(double*)out[0]);}
static int SAR_si(void**st,const double*o){(void)o;return (int)TA_SAR_StateInit((struct TA_SAR_State**)st,o[0],o[1]);}
static int SAR_ss(void*st,const double*in,void*const*out){return (int)TA_SAR_State((struct TA_SAR_State*)st,in[0],in[1],(double*)out[0]);}
static int SAR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_SAR_BatchState((struct TA_SAR_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int SAR_sf(void**st){return (int)TA_SAR_StateFree((struct TA_SAR_State**)st);}
static int SAR_sv(void*st,FILE*f){return (int)TA_SAR_StateSave((struct TA_SAR_State*)st,f);}
static int SAR_sl(void**st,FILE*f){return (int)TA_SAR_StateLoad((struct TA_SAR_State**)st,f);}
/* SAREXT */
static int SAREXT_lb(const double*o){(void)o;return TA_SAREXT_Lookback(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7]);}
static int SAREXT_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_SAREXT(s,e,in[0],in[1],o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],b,n,(double*)out[0]);}
static int SAREXT_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_SAREXT(s,e,in[0],in[1],o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],b,n,(double*)out[0]);}
static int SAREXT_si(void**st,const double*o){(void)o;return (int)TA_SAREXT_StateInit((struct TA_SAREXT_State**)st,o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7]);}
static int SAREXT_ss(void*st,const double*in,void*const*out){return (int)TA_SAREXT_State((struct TA_SAREXT_State*)st,in[0],in[1],(double*)out[0]);}
static int SAREXT_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_SAREXT_BatchState((struct TA_SAREXT_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int SAREXT_sf(void**st){return (int)TA_SAREXT_StateFree((struct TA_SAREXT_State**)st);}
static int SAREXT_sv(void*st,FILE*f){return (int)TA_SAREXT_StateSave((struct TA_SAREXT_State*)st,f);}
static int SAREXT_sl(void**st,FILE*f){return (int)TA_SAREXT_StateLoad((struct TA_SAREXT_State**)st,f);}
/* SIN */
static int SIN_lb(const double*o){(void)o;return TA_SIN_Lookback();}
static int SIN_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_SIN(s,e,in[0],b,n,(double*)out[0]);}
static int SIN_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_SIN(s,e,in[0],b,n,(double*)out[0]);}
static int SIN_si(void**st,const double*o){(void)o;return (int)TA_SIN_StateInit((struct TA_SIN_State**)st);}
static int SIN_ss(void*st,const double*in,void*const*out){return (int)TA_SIN_State((struct TA_SIN_State*)st,in[0],(double*)out[0]);}
static int SIN_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_SIN_BatchState((struct TA_SIN_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int SIN_sf(void**st){return (int)TA_SIN_StateFree((struct TA_SIN_State**)st);}
static int SIN_sv(void*st,FILE*f){return (int)TA_SIN_StateSave((struct TA_SIN_State*)st,f);}
static int SIN_sl(void**st,FILE*f){return (int)TA_SIN_StateLoad((struct TA_SIN_State**)st,f);}
/* SINH */
static int SINH_lb(const double*o){(void)o;return TA_SINH_Lookback();}
static int SINH_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_SINH(s,e,in[0],b,n,(double*)out[0]);}
static int SINH_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_SINH(s,e,in[0],b,n,(double*)out[0]);}
static int SINH_si(void**st,const double*o){(void)o;return (int)TA_SINH_StateInit((struct TA_SINH_State**)st);}
static int SINH_ss(void*st,const double*in,void*const*out){return (int)TA_SINH_State((struct TA_SINH_State*)st,in[0],(double*)out[0]);}
static int SINH_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_SINH_BatchState((struct TA_SINH_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int SINH_sf(void**st){return (int)TA_SINH_StateFree((struct TA_SINH_State**)st);}
static int SINH_sv(void*st,FILE*f){return (int)TA_SINH_StateSave((struct TA_SINH_State*)st,f);}
static int SINH_sl(void**st,FILE*f){return (int)TA_SINH_StateLoad((struct TA_SINH_State**)st,f);}
/* SMA */
static int SMA_lb(const double*o){(void)o;return TA_SMA_Lookback((int)o[0]);}
static int SMA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_SMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int SMA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_SMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int SMA_si(void**st,const double*o){(void)o;return (int)TA_SMA_StateInit((struct TA_SMA_State**)st,(int)o[0]);}
static int SMA_ss(void*st,const double*in,void*const*out){return (int)TA_SMA_State((struct TA_SMA_State*)st,in[0],(double*)out[0]);}
static int SMA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_SMA_BatchState((struct TA_SMA_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int SMA_sf(void**st){return (int)TA_SMA_StateFree((struct TA_SMA_State**)st);}
static int SMA_sv(void*st,FILE*f){return (int)TA_SMA_StateSave((struct TA_SMA_State*)st,f);}
static int SMA_sl(void**st,FILE*f){return (int)TA_SMA_StateLoad((struct TA_SMA_State**)st,f);}
/* SQRT */
static int SQRT_lb(const double*o){(void)o;return TA_SQRT_Lookback();}
static int SQRT_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_SQRT(s,e,in[0],b,n,(double*)out[0]);}
static int SQRT_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_SQRT(s,e,in[0],b,n,(double*)out[0]);}
static int SQRT_si(void**st,const double*o){(void)o;return (int)TA_SQRT_StateInit((struct TA_SQRT_State**)st);}
static int SQRT_ss(void*st,const double*in,void*const*out){return (int)TA_SQRT_State((struct TA_SQRT_State*)st,in[0],(double*)out[0]);}
static int SQRT_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_SQRT_BatchState((struct TA_SQRT_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int SQRT_sf(void**st){return (int)TA_SQRT_StateFree((struct TA_SQRT_State**)st);}
static int SQRT_sv(void*st,FILE*f){return (int)TA_SQRT_StateSave((struct TA_SQRT_State*)st,f);}
static int SQRT_sl(void**st,FILE*f){return (int)TA_SQRT_StateLoad((struct TA_SQRT_State**)st,f);}
/* STDDEV */
static int STDDEV_lb(const double*o){(void)o;return TA_STDDEV_Lookback((int)o[0],o[1]);}
static int STDDEV_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_STDDEV(s,e,in[0],(int)o[0],o[1],b,n,(double*)out[0]);}
static int STDDEV_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_STDDEV(s,e,in[0],(int)o[0],o[1],b,n,(double*)out[0]);}
static int STDDEV_si(void**st,const double*o){(void)o;return (int)TA_STDDEV_StateInit((struct TA_STDDEV_State**)st,(int)o[0],o[1]);}
static int STDDEV_ss(void*st,const double*in,void*const*out){return (int)TA_STDDEV_State((struct TA_STDDEV_State*)st,in[0],(double*)out[0]);}
static int STDDEV_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_STDDEV_BatchState((struct TA_STDDEV_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int STDDEV_sf(void**st){return (int)TA_STDDEV_StateFree((struct TA_STDDEV_State**)st);}
static int STDDEV_sv(void*st,FILE*f){return (int)TA_STDDEV_StateSave((struct TA_STDDEV_State*)st,f);}
static int STDDEV_sl(void**st,FILE*f){return (int)TA_STDDEV_StateLoad((struct TA_STDDEV_State**)st,f);}
/* STOCH */
static int STOCH_lb(const double*o){(void)o;return TA_STOCH_Lookback((int)o[0],(int)o[1],(TA_MAType)(int)o[2],(int)o[3],(TA_MAType)(int)o[4]);}
static int STOCH_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_STOCH(s,e,in[0],in[1],in[2],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],(int)o[3],(TA_MAType)(int)o[4],b,n,(double*)out[0],(double*)out[1]);}
static int STOCH_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_STOCH(s,e,in[0],in[1],in[2],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],(int)o[3],(TA_MAType)(int)o[4],b,n,(double*)out[0],(double*)out[1]);}
static int STOCH_si(void**st,const double*o){(void)o;return (int)TA_STOCH_StateInit((struct TA_STOCH_State**)st,(int)o[0],(int)o[1],(TA_MAType)(int)o[2],(int)o[3],(TA_MAType)(int)o[4]);}
static int STOCH_ss(void*st,const double*in,void*const*out){return (int)TA_STOCH_State((struct TA_STOCH_State*)st,in[0],in[1],in[2],(double*)out[0],(double*)out[1]);}
static int STOCH_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_STOCH_BatchState((struct TA_STOCH_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0],(double*)out[1]);}
static int STOCH_sf(void**st){return (int)TA_STOCH_StateFree((struct TA_STOCH_State**)st);}
static int STOCH_sv(void*st,FILE*f){return (int)TA_STOCH_StateSave((struct TA_STOCH_State*)st,f);}
static int STOCH_sl(void**st,FILE*f){return (int)TA_STOCH_StateLoad((struct TA_STOCH_State**)st,f);}
/* STOCHF */
static int STOCHF_lb(const double*o){(void)o;return TA_STOCHF_Lookback((int)o[0],(int)o[1],(TA_MAType)(int)o[2]);}
static int STOCHF_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_STOCHF(s,e,in[0],in[1],in[2],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],b,n,(double*)out[0],(double*)out[1]);}
static int STOCHF_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_STOCHF(s,e,in[0],in[1],in[2],(int)o[0],(int)o[1],(TA_MAType)(int)o[2],b,n,(double*)out[0],(double*)out[1]);}
static int STOCHF_si(void**st,const double*o){(void)o;return (int)TA_STOCHF_StateInit((struct TA_STOCHF_State**)st,(int)o[0],(int)o[1],(TA_MAType)(int)o[2]);}
static int STOCHF_ss(void*st,const double*in,void*const*out){return (int)TA_STOCHF_State((struct TA_STOCHF_State*)st,in[0],in[1],in[2],(double*)out[0],(double*)out[1]);}
static int STOCHF_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_STOCHF_BatchState((struct TA_STOCHF_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0],(double*)out[1]);}
static int STOCHF_sf(void**st){return (int)TA_STOCHF_StateFree((struct TA_STOCHF_State**)st);}
static int STOCHF_sv(void*st,FILE*f){return (int)TA_STOCHF_StateSave((struct TA_STOCHF_State*)st,f);}
static int STOCHF_sl(void**st,FILE*f){return (int)TA_STOCHF_StateLoad((struct TA_STOCHF_State**)st,f);}
/* STOCHRSI */
static int STOCHRSI_lb(const double*o){(void)o;return TA_STOCHRSI_Lookback((int)o[0],(int)o[1],(int)o[2],(TA_MAType)(int)o[3]);}
static int STOCHRSI_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_STOCHRSI(s,e,in[0],(int)o[0],(int)o[1],(int)o[2],(TA_MAType)(int)o[3],b,n,(double*)out[0],(double*)out[1]);}
static int STOCHRSI_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_STOCHRSI(s,e,in[0],(int)o[0],(int)o[1],(int)o[2],(TA_MAType)(int)o[3],b,n,(double*)out[0],(double*)out[1]);}
static int STOCHRSI_si(void**st,const double*o){(void)o;return (int)TA_STOCHRSI_StateInit((struct TA_STOCHRSI_State**)st,(int)o[0],(int)o[1],(int)o[2],(TA_MAType)(int)o[3]);}
static int STOCHRSI_ss(void*st,const double*in,void*const*out){return (int)TA_STOCHRSI_State((struct TA_STOCHRSI_State*)st,in[0],(double*)out[0],(double*)out[1]);}
static int STOCHRSI_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_STOCHRSI_BatchState((struct TA_STOCHRSI_State*)st,s,e,in[0],b,n,(double*)out[0],(double*)out[1]);}
static int STOCHRSI_sf(void**st){return (int)TA_STOCHRSI_StateFree((struct TA_STOCHRSI_State**)st);}
static int STOCHRSI_sv(void*st,FILE*f){return (int)TA_STOCHRSI_StateSave((struct TA_STOCHRSI_State*)st,f);}
static int STOCHRSI_sl(void**st,FILE*f){return (int)TA_STOCHRSI_StateLoad((struct TA_STOCHRSI_State**)st,f);}
/* SUB */
static int SUB_lb(const double*o){(void)o;return TA_SUB_Lookback();}
static int SUB_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_SUB(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int SUB_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_SUB(s,e,in[0],in[1],b,n,(double*)out[0]);}
static int SUB_si(void**st,const double*o){(void)o;return (int)TA_SUB_StateInit((struct TA_SUB_State**)st);}
static int SUB_ss(void*st,const double*in,void*const*out){return (int)TA_SUB_State((struct TA_SUB_State*)st,in[0],in[1],(double*)out[0]);}
static int SUB_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_SUB_BatchState((struct TA_SUB_State*)st,s,e,in[0],in[1],b,n,(double*)out[0]);}
static int SUB_sf(void**st){return (int)TA_SUB_StateFree((struct TA_SUB_State**)st);}
static int SUB_sv(void*st,FILE*f){return (int)TA_SUB_StateSave((struct TA_SUB_State*)st,f);}
static int SUB_sl(void**st,FILE*f){return (int)TA_SUB_StateLoad((struct TA_SUB_State**)st,f);}
/* SUM */
static int SUM_lb(const double*o){(void)o;return TA_SUM_Lookback((int)o[0]);}
static int SUM_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_SUM(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int SUM_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_SUM(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int SUM_si(void**st,const double*o){(void)o;return (int)TA_SUM_StateInit((struct TA_SUM_State**)st,(int)o[0]);}
static int SUM_ss(void*st,const double*in,void*const*out){return (int)TA_SUM_State((struct TA_SUM_State*)st,in[0],(double*)out[0]);}
static int SUM_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_SUM_BatchState((struct TA_SUM_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int SUM_sf(void**st){return (int)TA_SUM_StateFree((struct TA_SUM_State**)st);}
static int SUM_sv(void*st,FILE*f){return (int)TA_SUM_StateSave((struct TA_SUM_State*)st,f);}
static int SUM_sl(void**st,FILE*f){return (int)TA_SUM_StateLoad((struct TA_SUM_State**)st,f);}
/* T3 */
static int T3_lb(const double*o){(void)o;return TA_T3_Lookback((int)o[0],o[1]);}
static int T3_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_T3(s,e,in[0],(int)o[0],o[1],b,n,(double*)out[0]);}
static int T3_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_T3(s,e,in[0],(int)o[0],o[1],b,n,(double*)out[0]);}
static int T3_si(void**st,const double*o){(void)o;return (int)TA_T3_StateInit((struct TA_T3_State**)st,(int)o[0],o[1]);}
static int T3_ss(void*st,const double*in,void*const*out){return (int)TA_T3_State((struct TA_T3_State*)st,in[0],(double*)out[0]);}
static int T3_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_T3_BatchState((struct TA_T3_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int T3_sf(void**st){return (int)TA_T3_StateFree((struct TA_T3_State**)st);}
static int T3_sv(void*st,FILE*f){return (int)TA_T3_StateSave((struct TA_T3_State*)st,f);}
static int T3_sl(void**st,FILE*f){return (int)TA_T3_StateLoad((struct TA_T3_State**)st,f);}
/* TAN */
static int TAN_lb(const double*o){(void)o;return TA_TAN_Lookback();}
static int TAN_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_TAN(s,e,in[0],b,n,(double*)out[0]);}
static int TAN_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_TAN(s,e,in[0],b,n,(double*)out[0]);}
static int TAN_si(void**st,const double*o){(void)o;return (int)TA_TAN_StateInit((struct TA_TAN_State**)st);}
static int TAN_ss(void*st,const double*in,void*const*out){return (int)TA_TAN_State((struct TA_TAN_State*)st,in[0],(double*)out[0]);}
static int TAN_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_TAN_BatchState((struct TA_TAN_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int TAN_sf(void**st){return (int)TA_TAN_StateFree((struct TA_TAN_State**)st);}
static int TAN_sv(void*st,FILE*f){return (int)TA_TAN_StateSave((struct TA_TAN_State*)st,f);}
static int TAN_sl(void**st,FILE*f){return (int)TA_TAN_StateLoad((struct TA_TAN_State**)st,f);}
/* TANH */
static int TANH_lb(const double*o){(void)o;return TA_TANH_Lookback();}
static int TANH_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_TANH(s,e,in[0],b,n,(double*)out[0]);}
static int TANH_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_TANH(s,e,in[0],b,n,(double*)out[0]);}
static int TANH_si(void**st,const double*o){(void)o;return (int)TA_TANH_StateInit((struct TA_TANH_State**)st);}
static int TANH_ss(void*st,const double*in,void*const*out){return (int)TA_TANH_State((struct TA_TANH_State*)st,in[0],(double*)out[0]);}
static int TANH_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_TANH_BatchState((struct TA_TANH_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int TANH_sf(void**st){return (int)TA_TANH_StateFree((struct TA_TANH_State**)st);}
static int TANH_sv(void*st,FILE*f){return (int)TA_TANH_StateSave((struct TA_TANH_State*)st,f);}
static int TANH_sl(void**st,FILE*f){return (int)TA_TANH_StateLoad((struct TA_TANH_State**)st,f);}
/* TEMA */
static int TEMA_lb(const double*o){(void)o;return TA_TEMA_Lookback((int)o[0]);}
static int TEMA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_TEMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int TEMA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_TEMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int TEMA_si(void**st,const double*o){(void)o;return (int)TA_TEMA_StateInit((struct TA_TEMA_State**)st,(int)o[0]);}
static int TEMA_ss(void*st,const double*in,void*const*out){return (int)TA_TEMA_State((struct TA_TEMA_State*)st,in[0],(double*)out[0]);}
static int TEMA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_TEMA_BatchState((struct TA_TEMA_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int TEMA_sf(void**st){return (int)TA_TEMA_StateFree((struct TA_TEMA_State**)st);}
static int TEMA_sv(void*st,FILE*f){return (int)TA_TEMA_StateSave((struct TA_TEMA_State*)st,f);}
static int TEMA_sl(void**st,FILE*f){return (int)TA_TEMA_StateLoad((struct TA_TEMA_State**)st,f);}
/* TRANGE */
static int TRANGE_lb(const double*o){(void)o;return TA_TRANGE_Lookback();}
static int TRANGE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_TRANGE(s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int TRANGE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_TRANGE(s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int TRANGE_si(void**st,const double*o){(void)o;return (int)TA_TRANGE_StateInit((struct TA_TRANGE_State**)st);}
static int TRANGE_ss(void*st,const double*in,void*const*out){return (int)TA_TRANGE_State((struct TA_TRANGE_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int TRANGE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_TRANGE_BatchState((struct TA_TRANGE_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int TRANGE_sf(void**st){return (int)TA_TRANGE_StateFree((struct TA_TRANGE_State**)st);}
static int TRANGE_sv(void*st,FILE*f){return (int)TA_TRANGE_StateSave((struct TA_TRANGE_State*)st,f);}
static int TRANGE_sl(void**st,FILE*f){return (int)TA_TRANGE_StateLoad((struct TA_TRANGE_State**)st,f);}
/* TRIMA */
static int TRIMA_lb(const double*o){(void)o;return TA_TRIMA_Lookback((int)o[0]);}
static int TRIMA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_TRIMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int TRIMA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_TRIMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int TRIMA_si(void**st,const double*o){(void)o;return (int)TA_TRIMA_StateInit((struct TA_TRIMA_State**)st,(int)o[0]);}
static int TRIMA_ss(void*st,const double*in,void*const*out){return (int)TA_TRIMA_State((struct TA_TRIMA_State*)st,in[0],(double*)out[0]);}
static int TRIMA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_TRIMA_BatchState((struct TA_TRIMA_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int TRIMA_sf(void**st){return (int)TA_TRIMA_StateFree((struct TA_TRIMA_State**)st);}
static int TRIMA_sv(void*st,FILE*f){return (int)TA_TRIMA_StateSave((struct TA_TRIMA_State*)st,f);}
static int TRIMA_sl(void**st,FILE*f){return (int)TA_TRIMA_StateLoad((struct TA_TRIMA_State**)st,f);}
/* TRIX */
static int TRIX_lb(const double*o){(void)o;return TA_TRIX_Lookback((int)o[0]);}
static int TRIX_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_TRIX(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int TRIX_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_TRIX(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int TRIX_si(void**st,const double*o){(void)o;return (int)TA_TRIX_StateInit((struct TA_TRIX_State**)st,(int)o[0]);}
static int TRIX_ss(void*st,const double*in,void*const*out){return (int)TA_TRIX_State((struct TA_TRIX_State*)st,in[0],(double*)out[0]);}
static int TRIX_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_TRIX_BatchState((struct TA_TRIX_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int TRIX_sf(void**st){return (int)TA_TRIX_StateFree((struct TA_TRIX_State**)st);}
static int TRIX_sv(void*st,FILE*f){return (int)TA_TRIX_StateSave((struct TA_TRIX_State*)st,f);}
static int TRIX_sl(void**st,FILE*f){return (int)TA_TRIX_StateLoad((struct TA_TRIX_State**)st,f);}
/* TSF */
static int TSF_lb(const double*o){(void)o;return TA_TSF_Lookback((int)o[0]);}
static int TSF_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_TSF(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int TSF_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_TSF(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int TSF_si(void**st,const double*o){(void)o;return (int)TA_TSF_StateInit((struct TA_TSF_State**)st,(int)o[0]);}
static int TSF_ss(void*st,const double*in,void*const*out){return (int)TA_TSF_State((struct TA_TSF_State*)st,in[0],(double*)out[0]);}
static int TSF_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_TSF_BatchState((struct TA_TSF_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int TSF_sf(void**st){return (int)TA_TSF_StateFree((struct TA_TSF_State**)st);}
static int TSF_sv(void*st,FILE*f){return (int)TA_TSF_StateSave((struct TA_TSF_State*)st,f);}
static int TSF_sl(void**st,FILE*f){return (int)TA_TSF_StateLoad((struct TA_TSF_State**)st,f);}
/* TYPPRICE */
static int TYPPRICE_lb(const double*o){(void)o;return TA_TYPPRICE_Lookback();}
static int TYPPRICE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_TYPPRICE(s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int TYPPRICE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_TYPPRICE(s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int TYPPRICE_si(void**st,const double*o){(void)o;return (int)TA_TYPPRICE_StateInit((struct TA_TYPPRICE_State**)st);}
static int TYPPRICE_ss(void*st,const double*in,void*const*out){return (int)TA_TYPPRICE_State((struct TA_TYPPRICE_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int TYPPRICE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_TYPPRICE_BatchState((struct TA_TYPPRICE_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int TYPPRICE_sf(void**st){return (int)TA_TYPPRICE_StateFree((struct TA_TYPPRICE_State**)st);}
static int TYPPRICE_sv(void*st,FILE*f){return (int)TA_TYPPRICE_StateSave((struct TA_TYPPRICE_State*)st,f);}
static int TYPPRICE_sl(void**st,FILE*f){return (int)TA_TYPPRICE_StateLoad((struct TA_TYPPRICE_State**)st,f);}
/* ULTOSC */
static int ULTOSC_lb(const double*o){(void)o;return TA_ULTOSC_Lookback((int)o[0],(int)o[1],(int)o[2]);}
static int ULTOSC_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_ULTOSC(s,e,in[0],in[1],in[2],(int)o[0],(int)o[1],(int)o[2],b,n,(double*)out[0]);}
static int ULTOSC_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_ULTOSC(s,e,in[0],in[1],in[2],(int)o[0],(int)o[1],(int)o[2],b,n,(double*)out[0]);}
static int ULTOSC_si(void**st,const double*o){(void)o;return (int)TA_ULTOSC_StateInit((struct TA_ULTOSC_State**)st,(int)o[0],(int)o[1],(int)o[2]);}
static int ULTOSC_ss(void*st,const double*in,void*const*out){return (int)TA_ULTOSC_State((struct TA_ULTOSC_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int ULTOSC_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_ULTOSC_BatchState((struct TA_ULTOSC_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int ULTOSC_sf(void**st){return (int)TA_ULTOSC_StateFree((struct TA_ULTOSC_State**)st);}
static int ULTOSC_sv(void*st,FILE*f){return (int)TA_ULTOSC_StateSave((struct TA_ULTOSC_State*)st,f);}
static int ULTOSC_sl(void**st,FILE*f){return (int)TA_ULTOSC_StateLoad((struct TA_ULTOSC_State**)st,f);}
/* VAR */
static int VAR_lb(const double*o){(void)o;return TA_VAR_Lookback((int)o[0],o[1]);}
static int VAR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_VAR(s,e,in[0],(int)o[0],o[1],b,n,(double*)out[0]);}
static int VAR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_VAR(s,e,in[0],(int)o[0],o[1],b,n,(double*)out[0]);}
static int VAR_si(void**st,const double*o){(void)o;return (int)TA_VAR_StateInit((struct TA_VAR_State**)st,(int)o[0],o[1]);}
static int VAR_ss(void*st,const double*in,void*const*out){return (int)TA_VAR_State((struct TA_VAR_State*)st,in[0],(double*)out[0]);}
static int VAR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_VAR_BatchState((struct TA_VAR_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int VAR_sf(void**st){return (int)TA_VAR_StateFree((struct TA_VAR_State**)st);}
static int VAR_sv(void*st,FILE*f){return (int)TA_VAR_StateSave((struct TA_VAR_State*)st,f);}
static int VAR_sl(void**st,FILE*f){return (int)TA_VAR_StateLoad((struct TA_VAR_State**)st,f);}
/* WCLPRICE */
static int WCLPRICE_lb(const double*o){(void)o;return TA_WCLPRICE_Lookback();}
static int WCLPRICE_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_WCLPRICE(s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int WCLPRICE_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_WCLPRICE(s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int WCLPRICE_si(void**st,const double*o){(void)o;return (int)TA_WCLPRICE_StateInit((struct TA_WCLPRICE_State**)st);}
static int WCLPRICE_ss(void*st,const double*in,void*const*out){return (int)TA_WCLPRICE_State((struct TA_WCLPRICE_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int WCLPRICE_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_WCLPRICE_BatchState((struct TA_WCLPRICE_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int WCLPRICE_sf(void**st){return (int)TA_WCLPRICE_StateFree((struct TA_WCLPRICE_State**)st);}
static int WCLPRICE_sv(void*st,FILE*f){return (int)TA_WCLPRICE_StateSave((struct TA_WCLPRICE_State*)st,f);}
static int WCLPRICE_sl(void**st,FILE*f){return (int)TA_WCLPRICE_StateLoad((struct TA_WCLPRICE_State**)st,f);}
/* WILLR */
static int WILLR_lb(const double*o){(void)o;return TA_WILLR_Lookback((int)o[0]);}
static int WILLR_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_WILLR(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int WILLR_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_WILLR(s,e,in[0],in[1],in[2],(int)o[0],b,n,(double*)out[0]);}
static int WILLR_si(void**st,const double*o){(void)o;return (int)TA_WILLR_StateInit((struct TA_WILLR_State**)st,(int)o[0]);}
static int WILLR_ss(void*st,const double*in,void*const*out){return (int)TA_WILLR_State((struct TA_WILLR_State*)st,in[0],in[1],in[2],(double*)out[0]);}
static int WILLR_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_WILLR_BatchState((struct TA_WILLR_State*)st,s,e,in[0],in[1],in[2],b,n,(double*)out[0]);}
static int WILLR_sf(void**st){return (int)TA_WILLR_StateFree((struct TA_WILLR_State**)st);}
static int WILLR_sv(void*st,FILE*f){return (int)TA_WILLR_StateSave((struct TA_WILLR_State*)st,f);}
static int WILLR_sl(void**st,FILE*f){return (int)TA_WILLR_StateLoad((struct TA_WILLR_State**)st,f);}
/* WLMA */
static int WLMA_lb(const double*o){(void)o;return TA_WLMA_Lookback((int)o[0]);}
static int WLMA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_WLMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int WLMA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_WLMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int WLMA_si(void**st,const double*o){(void)o;return (int)TA_WLMA_StateInit((struct TA_WLMA_State**)st,(int)o[0]);}
static int WLMA_ss(void*st,const double*in,void*const*out){return (int)TA_WLMA_State((struct TA_WLMA_State*)st,in[0],(double*)out[0]);}
static int WLMA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_WLMA_BatchState((struct TA_WLMA_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int WLMA_sf(void**st){return (int)TA_WLMA_StateFree((struct TA_WLMA_State**)st);}
static int WLMA_sv(void*st,FILE*f){return (int)TA_WLMA_StateSave((struct TA_WLMA_State*)st,f);}
static int WLMA_sl(void**st,FILE*f){return (int)TA_WLMA_StateLoad((struct TA_WLMA_State**)st,f);}
/* WMA */
static int WMA_lb(const double*o){(void)o;return TA_WMA_Lookback((int)o[0]);}
static int WMA_bd(int s,int e,const double*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_WMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int WMA_bf(int s,int e,const float*const*in,const double*o,int*b,int*n,void*const*out){(void)o;return (int)TA_S_WMA(s,e,in[0],(int)o[0],b,n,(double*)out[0]);}
static int WMA_si(void**st,const double*o){(void)o;return (int)TA_WMA_StateInit((struct TA_WMA_State**)st,(int)o[0]);}
static int WMA_ss(void*st,const double*in,void*const*out){return (int)TA_WMA_State((struct TA_WMA_State*)st,in[0],(double*)out[0]);}
static int WMA_sb(void*st,int s,int e,const double*const*in,int*b,int*n,void*const*out){return (int)TA_WMA_BatchState((struct TA_WMA_State*)st,s,e,in[0],b,n,(double*)out[0]);}
static int WMA_sf(void**st){return (int)TA_WMA_StateFree((struct TA_WMA_State**)st);}
static int WMA_sv(void*st,FILE*f){return (int)TA_WMA_StateSave((struct TA_WMA_State*)st,f);}
static int WMA_sl(void**st,FILE*f){return (int)TA_WMA_StateLoad((struct TA_WMA_State**)st,f);}
const Fn FNS[]={
{"ACCBANDS","Accbands","Overlap Studies","Acceleration Bands",3,"HLC",1,{{1,2.0,100000.0,20.0,"optInTimePeriod"}},3,{0,0,0},{"outRealUpperBand","outRealMiddleBand","outRealLowerBand"},FL_OVER,ACCBANDS_lb,ACCBANDS_bd,ACCBANDS_bf,ACCBANDS_si,ACCBANDS_ss,ACCBANDS_sb,ACCBANDS_sf,ACCBANDS_sv,ACCBANDS_sl},
{"ACOS","Acos","Math Transform","Vector Trigonometric ACos",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,ACOS_lb,ACOS_bd,ACOS_bf,ACOS_si,ACOS_ss,ACOS_sb,ACOS_sf,ACOS_sv,ACOS_sl},
{"AD","Ad","Volume Indicators","Chaikin A/D Line",4,"HLCV",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,AD_lb,AD_bd,AD_bf,AD_si,AD_ss,AD_sb,AD_sf,AD_sv,AD_sl},
{"ADD","Add","Math Operators","Vector Arithmetic Add",2,"rs",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,ADD_lb,ADD_bd,ADD_bf,ADD_si,ADD_ss,ADD_sb,ADD_sf,ADD_sv,ADD_sl},
{"ADOSC","AdOsc","Volume Indicators","Chaikin A/D Oscillator",4,"HLCV",2,{{1,2.0,100000.0,3.0,"optInFastPeriod"},{1,2.0,100000.0,10.0,"optInSlowPeriod"}},1,{0},{"outReal"},0,ADOSC_lb,ADOSC_bd,ADOSC_bf,ADOSC_si,ADOSC_ss,ADOSC_sb,ADOSC_sf,ADOSC_sv,ADOSC_sl},
{"ADX","Adx","Momentum Indicators","Average Directional Movement Index",3,"HLC",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,ADX_lb,ADX_bd,ADX_bf,ADX_si,ADX_ss,ADX_sb,ADX_sf,ADX_sv,ADX_sl},
{"ADXR","Adxr","Momentum Indicators","Average Directional Movement Index Rating",3,"HLC",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,ADXR_lb,ADXR_bd,ADXR_bf,ADXR_si,ADXR_ss,ADXR_sb,ADXR_sf,ADXR_sv,ADXR_sl},
{"APO","Apo","Momentum Indicators","Absolute Price Oscillator",1,"r",3,{{1,2.0,100000.0,12.0,"optInFastPeriod"},{1,2.0,100000.0,26.0,"optInSlowPeriod"},{2,0,9,0.0,"optInMAType"}},1,{0},{"outReal"},0,APO_lb,APO_bd,APO_bf,APO_si,APO_ss,APO_sb,APO_sf,APO_sv,APO_sl},
{"AROON","Aroon","Momentum Indicators","Aroon",2,"HL",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},2,{0,0},{"outAroonDown","outAroonUp"},0,AROON_lb,AROON_bd,AROON_bf,AROON_si,AROON_ss,AROON_sb,AROON_sf,AROON_sv,AROON_sl},
{"AROONOSC","AroonOsc","Momentum Indicators","Aroon Oscillator",2,"HL",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},0,AROONOSC_lb,AROONOSC_bd,AROONOSC_bf,AROONOSC_si,AROONOSC_ss,AROONOSC_sb,AROONOSC_sf,AROONOSC_sv,AROONOSC_sl},
{"ASIN","Asin","Math Transform","Vector Trigonometric ASin",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,ASIN_lb,ASIN_bd,ASIN_bf,ASIN_si,ASIN_ss,ASIN_sb,ASIN_sf,ASIN_sv,ASIN_sl},
{"ATAN","Atan","Math Transform","Vector Trigonometric ATan",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,ATAN_lb,ATAN_bd,ATAN_bf,ATAN_si,ATAN_ss,ATAN_sb,ATAN_sf,ATAN_sv,ATAN_sl},
{"ATR","Atr","Volatility Indicators","Average True Range",3,"HLC",1,{{1,1.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,ATR_lb,ATR_bd,ATR_bf,ATR_si,ATR_ss,ATR_sb,ATR_sf,ATR_sv,ATR_sl},
{"AVGDEV","AvgDev","Price Transform","Average Deviation",1,"r",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,AVGDEV_lb,AVGDEV_bd,AVGDEV_bf,AVGDEV_si,AVGDEV_ss,AVGDEV_sb,AVGDEV_sf,AVGDEV_sv,AVGDEV_sl},
{"AVGPRICE","AvgPrice","Price Transform","Average Price",4,"OHLC",0,{{0,0,0,0,0}},1,{0},{"outReal"},FL_OVER,AVGPRICE_lb,AVGPRICE_bd,AVGPRICE_bf,AVGPRICE_si,AVGPRICE_ss,AVGPRICE_sb,AVGPRICE_sf,AVGPRICE_sv,AVGPRICE_sl},
{"BBANDS","Bbands","Overlap Studies","Bollinger Bands",1,"r",4,{{1,2.0,100000.0,5.0,"optInTimePeriod"},{0,-3e+37,3e+37,2.0,"optInNbDevUp"},{0,-3e+37,3e+37,2.0,"optInNbDevDn"},{2,0,9,0.0,"optInMAType"}},3,{0,0,0},{"outRealUpperBand","outRealMiddleBand","outRealLowerBand"},FL_OVER,BBANDS_lb,BBANDS_bd,BBANDS_bf,BBANDS_si,BBANDS_ss,BBANDS_sb,BBANDS_sf,BBANDS_sv,BBANDS_sl},
{"BETA","Beta","Statistic Functions","Beta",2,"rs",1,{{1,1.0,100000.0,5.0,"optInTimePeriod"}},1,{0},{"outReal"},0,BETA_lb,BETA_bd,BETA_bf,BETA_si,BETA_ss,BETA_sb,BETA_sf,BETA_sv,BETA_sl},
{"BOP","Bop","Momentum Indicators","Balance Of Power",4,"OHLC",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,BOP_lb,BOP_bd,BOP_bf,BOP_si,BOP_ss,BOP_sb,BOP_sf,BOP_sv,BOP_sl},
{"CCI","Cci","Momentum Indicators","Commodity Channel Index",3,"HLC",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},0,CCI_lb,CCI_bd,CCI_bf,CCI_si,CCI_ss,CCI_sb,CCI_sf,CCI_sv,CCI_sl},
{"CDL2CROWS","Cdl2Crows","Pattern Recognition","Two Crows",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDL2CROWS_lb,CDL2CROWS_bd,CDL2CROWS_bf,CDL2CROWS_si,CDL2CROWS_ss,CDL2CROWS_sb,CDL2CROWS_sf,CDL2CROWS_sv,CDL2CROWS_sl},
{"CDL3BLACKCROWS","Cdl3BlackCrows","Pattern Recognition","Three Black Crows",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDL3BLACKCROWS_lb,CDL3BLACKCROWS_bd,CDL3BLACKCROWS_bf,CDL3BLACKCROWS_si,CDL3BLACKCROWS_ss,CDL3BLACKCROWS_sb,CDL3BLACKCROWS_sf,CDL3BLACKCROWS_sv,CDL3BLACKCROWS_sl},
{"CDL3INSIDE","Cdl3Inside","Pattern Recognition","Three Inside Up/Down",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDL3INSIDE_lb,CDL3INSIDE_bd,CDL3INSIDE_bf,CDL3INSIDE_si,CDL3INSIDE_ss,CDL3INSIDE_sb,CDL3INSIDE_sf,CDL3INSIDE_sv,CDL3INSIDE_sl},
{"CDL3LINESTRIKE","Cdl3LineStrike","Pattern Recognition","Three-Line Strike ",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDL3LINESTRIKE_lb,CDL3LINESTRIKE_bd,CDL3LINESTRIKE_bf,CDL3LINESTRIKE_si,CDL3LINESTRIKE_ss,CDL3LINESTRIKE_sb,CDL3LINESTRIKE_sf,CDL3LINESTRIKE_sv,CDL3LINESTRIKE_sl},
{"CDL3OUTSIDE","Cdl3Outside","Pattern Recognition","Three Outside Up/Down",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDL3OUTSIDE_lb,CDL3OUTSIDE_bd,CDL3OUTSIDE_bf,CDL3OUTSIDE_si,CDL3OUTSIDE_ss,CDL3OUTSIDE_sb,CDL3OUTSIDE_sf,CDL3OUTSIDE_sv,CDL3OUTSIDE_sl},
{"CDL3STARSINSOUTH","Cdl3StarsInSouth","Pattern Recognition","Three Stars In The South",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDL3STARSINSOUTH_lb,CDL3STARSINSOUTH_bd,CDL3STARSINSOUTH_bf,CDL3STARSINSOUTH_si,CDL3STARSINSOUTH_ss,CDL3STARSINSOUTH_sb,CDL3STARSINSOUTH_sf,CDL3STARSINSOUTH_sv,CDL3STARSINSOUTH_sl},
{"CDL3WHITESOLDIERS","Cdl3WhiteSoldiers","Pattern Recognition","Three Advancing White Soldiers",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDL3WHITESOLDIERS_lb,CDL3WHITESOLDIERS_bd,CDL3WHITESOLDIERS_bf,CDL3WHITESOLDIERS_si,CDL3WHITESOLDIERS_ss,CDL3WHITESOLDIERS_sb,CDL3WHITESOLDIERS_sf,CDL3WHITESOLDIERS_sv,CDL3WHITESOLDIERS_sl},
{"CDLABANDONEDBABY","CdlAbandonedBaby","Pattern Recognition","Abandoned Baby",4,"OHLC",1,{{0,0.0,3e+37,0.3,"optInPenetration"}},1,{1},{"outInteger"},FL_CDL,CDLABANDONEDBABY_lb,CDLABANDONEDBABY_bd,CDLABANDONEDBABY_bf,CDLABANDONEDBABY_si,CDLABANDONEDBABY_ss,CDLABANDONEDBABY_sb,CDLABANDONEDBABY_sf,CDLABANDONEDBABY_sv,CDLABANDONEDBABY_sl},
{"CDLADVANCEBLOCK","CdlAdvanceBlock","Pattern Recognition","Advance Block",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLADVANCEBLOCK_lb,CDLADVANCEBLOCK_bd,CDLADVANCEBLOCK_bf,CDLADVANCEBLOCK_si,CDLADVANCEBLOCK_ss,CDLADVANCEBLOCK_sb,CDLADVANCEBLOCK_sf,CDLADVANCEBLOCK_sv,CDLADVANCEBLOCK_sl},
{"CDLBELTHOLD","CdlBeltHold","Pattern Recognition","Belt-hold",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLBELTHOLD_lb,CDLBELTHOLD_bd,CDLBELTHOLD_bf,CDLBELTHOLD_si,CDLBELTHOLD_ss,CDLBELTHOLD_sb,CDLBELTHOLD_sf,CDLBELTHOLD_sv,CDLBELTHOLD_sl},
{"CDLBREAKAWAY","CdlBreakaway","Pattern Recognition","Breakaway",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLBREAKAWAY_lb,CDLBREAKAWAY_bd,CDLBREAKAWAY_bf,CDLBREAKAWAY_si,CDLBREAKAWAY_ss,CDLBREAKAWAY_sb,CDLBREAKAWAY_sf,CDLBREAKAWAY_sv,CDLBREAKAWAY_sl},
{"CDLCLOSINGMARUBOZU","CdlClosingMarubozu","Pattern Recognition","Closing Marubozu",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLCLOSINGMARUBOZU_lb,CDLCLOSINGMARUBOZU_bd,CDLCLOSINGMARUBOZU_bf,CDLCLOSINGMARUBOZU_si,CDLCLOSINGMARUBOZU_ss,CDLCLOSINGMARUBOZU_sb,CDLCLOSINGMARUBOZU_sf,CDLCLOSINGMARUBOZU_sv,CDLCLOSINGMARUBOZU_sl},
{"CDLCONCEALBABYSWALL","CdlConcealBabysWall","Pattern Recognition","Concealing Baby Swallow",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLCONCEALBABYSWALL_lb,CDLCONCEALBABYSWALL_bd,CDLCONCEALBABYSWALL_bf,CDLCONCEALBABYSWALL_si,CDLCONCEALBABYSWALL_ss,CDLCONCEALBABYSWALL_sb,CDLCONCEALBABYSWALL_sf,CDLCONCEALBABYSWALL_sv,CDLCONCEALBABYSWALL_sl},
{"CDLCOUNTERATTACK","CdlCounterAttack","Pattern Recognition","Counterattack",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLCOUNTERATTACK_lb,CDLCOUNTERATTACK_bd,CDLCOUNTERATTACK_bf,CDLCOUNTERATTACK_si,CDLCOUNTERATTACK_ss,CDLCOUNTERATTACK_sb,CDLCOUNTERATTACK_sf,CDLCOUNTERATTACK_sv,CDLCOUNTERATTACK_sl},
{"CDLDARKCLOUDCOVER","CdlDarkCloudCover","Pattern Recognition","Dark Cloud Cover",4,"OHLC",1,{{0,0.0,3e+37,0.5,"optInPenetration"}},1,{1},{"outInteger"},FL_CDL,CDLDARKCLOUDCOVER_lb,CDLDARKCLOUDCOVER_bd,CDLDARKCLOUDCOVER_bf,CDLDARKCLOUDCOVER_si,CDLDARKCLOUDCOVER_ss,CDLDARKCLOUDCOVER_sb,CDLDARKCLOUDCOVER_sf,CDLDARKCLOUDCOVER_sv,CDLDARKCLOUDCOVER_sl},
{"CDLDOJI","CdlDoji","Pattern Recognition","Doji",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLDOJI_lb,CDLDOJI_bd,CDLDOJI_bf,CDLDOJI_si,CDLDOJI_ss,CDLDOJI_sb,CDLDOJI_sf,CDLDOJI_sv,CDLDOJI_sl},
{"CDLDOJISTAR","CdlDojiStar","Pattern Recognition","Doji Star",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLDOJISTAR_lb,CDLDOJISTAR_bd,CDLDOJISTAR_bf,CDLDOJISTAR_si,CDLDOJISTAR_ss,CDLDOJISTAR_sb,CDLDOJISTAR_sf,CDLDOJISTAR_sv,CDLDOJISTAR_sl},
{"CDLDRAGONFLYDOJI","CdlDragonflyDoji","Pattern Recognition","Dragonfly Doji",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLDRAGONFLYDOJI_lb,CDLDRAGONFLYDOJI_bd,CDLDRAGONFLYDOJI_bf,CDLDRAGONFLYDOJI_si,CDLDRAGONFLYDOJI_ss,CDLDRAGONFLYDOJI_sb,CDLDRAGONFLYDOJI_sf,CDLDRAGONFLYDOJI_sv,CDLDRAGONFLYDOJI_sl},
{"CDLENGULFING","CdlEngulfing","Pattern Recognition","Engulfing Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLENGULFING_lb,CDLENGULFING_bd,CDLENGULFING_bf,CDLENGULFING_si,CDLENGULFING_ss,CDLENGULFING_sb,CDLENGULFING_sf,CDLENGULFING_sv,CDLENGULFING_sl},
{"CDLEVENINGDOJISTAR","CdlEveningDojiStar","Pattern Recognition","Evening Doji Star",4,"OHLC",1,{{0,0.0,3e+37,0.3,"optInPenetration"}},1,{1},{"outInteger"},FL_CDL,CDLEVENINGDOJISTAR_lb,CDLEVENINGDOJISTAR_bd,CDLEVENINGDOJISTAR_bf,CDLEVENINGDOJISTAR_si,CDLEVENINGDOJISTAR_ss,CDLEVENINGDOJISTAR_sb,CDLEVENINGDOJISTAR_sf,CDLEVENINGDOJISTAR_sv,CDLEVENINGDOJISTAR_sl},
{"CDLEVENINGSTAR","CdlEveningStar","Pattern Recognition","Evening Star",4,"OHLC",1,{{0,0.0,3e+37,0.3,"optInPenetration"}},1,{1},{"outInteger"},FL_CDL,CDLEVENINGSTAR_lb,CDLEVENINGSTAR_bd,CDLEVENINGSTAR_bf,CDLEVENINGSTAR_si,CDLEVENINGSTAR_ss,CDLEVENINGSTAR_sb,CDLEVENINGSTAR_sf,CDLEVENINGSTAR_sv,CDLEVENINGSTAR_sl},
{"CDLGAPSIDESIDEWHITE","CdlGapSideSideWhite","Pattern Recognition","Up/Down-gap side-by-side white lines",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLGAPSIDESIDEWHITE_lb,CDLGAPSIDESIDEWHITE_bd,CDLGAPSIDESIDEWHITE_bf,CDLGAPSIDESIDEWHITE_si,CDLGAPSIDESIDEWHITE_ss,CDLGAPSIDESIDEWHITE_sb,CDLGAPSIDESIDEWHITE_sf,CDLGAPSIDESIDEWHITE_sv,CDLGAPSIDESIDEWHITE_sl},
{"CDLGRAVESTONEDOJI","CdlGravestoneDoji","Pattern Recognition","Gravestone Doji",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLGRAVESTONEDOJI_lb,CDLGRAVESTONEDOJI_bd,CDLGRAVESTONEDOJI_bf,CDLGRAVESTONEDOJI_si,CDLGRAVESTONEDOJI_ss,CDLGRAVESTONEDOJI_sb,CDLGRAVESTONEDOJI_sf,CDLGRAVESTONEDOJI_sv,CDLGRAVESTONEDOJI_sl},
{"CDLHAMMER","CdlHammer","Pattern Recognition","Hammer",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLHAMMER_lb,CDLHAMMER_bd,CDLHAMMER_bf,CDLHAMMER_si,CDLHAMMER_ss,CDLHAMMER_sb,CDLHAMMER_sf,CDLHAMMER_sv,CDLHAMMER_sl},
{"CDLHANGINGMAN","CdlHangingMan","Pattern Recognition","Hanging Man",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLHANGINGMAN_lb,CDLHANGINGMAN_bd,CDLHANGINGMAN_bf,CDLHANGINGMAN_si,CDLHANGINGMAN_ss,CDLHANGINGMAN_sb,CDLHANGINGMAN_sf,CDLHANGINGMAN_sv,CDLHANGINGMAN_sl},
{"CDLHARAMI","CdlHarami","Pattern Recognition","Harami Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLHARAMI_lb,CDLHARAMI_bd,CDLHARAMI_bf,CDLHARAMI_si,CDLHARAMI_ss,CDLHARAMI_sb,CDLHARAMI_sf,CDLHARAMI_sv,CDLHARAMI_sl},
{"CDLHARAMICROSS","CdlHaramiCross","Pattern Recognition","Harami Cross Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLHARAMICROSS_lb,CDLHARAMICROSS_bd,CDLHARAMICROSS_bf,CDLHARAMICROSS_si,CDLHARAMICROSS_ss,CDLHARAMICROSS_sb,CDLHARAMICROSS_sf,CDLHARAMICROSS_sv,CDLHARAMICROSS_sl},
{"CDLHIGHWAVE","CdlHignWave","Pattern Recognition","High-Wave Candle",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLHIGHWAVE_lb,CDLHIGHWAVE_bd,CDLHIGHWAVE_bf,CDLHIGHWAVE_si,CDLHIGHWAVE_ss,CDLHIGHWAVE_sb,CDLHIGHWAVE_sf,CDLHIGHWAVE_sv,CDLHIGHWAVE_sl},
{"CDLHIKKAKE","CdlHikkake","Pattern Recognition","Hikkake Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLHIKKAKE_lb,CDLHIKKAKE_bd,CDLHIKKAKE_bf,CDLHIKKAKE_si,CDLHIKKAKE_ss,CDLHIKKAKE_sb,CDLHIKKAKE_sf,CDLHIKKAKE_sv,CDLHIKKAKE_sl},
{"CDLHIKKAKEMOD","CdlHikkakeMod","Pattern Recognition","Modified Hikkake Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLHIKKAKEMOD_lb,CDLHIKKAKEMOD_bd,CDLHIKKAKEMOD_bf,CDLHIKKAKEMOD_si,CDLHIKKAKEMOD_ss,CDLHIKKAKEMOD_sb,CDLHIKKAKEMOD_sf,CDLHIKKAKEMOD_sv,CDLHIKKAKEMOD_sl},
{"CDLHOMINGPIGEON","CdlHomingPigeon","Pattern Recognition","Homing Pigeon",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLHOMINGPIGEON_lb,CDLHOMINGPIGEON_bd,CDLHOMINGPIGEON_bf,CDLHOMINGPIGEON_si,CDLHOMINGPIGEON_ss,CDLHOMINGPIGEON_sb,CDLHOMINGPIGEON_sf,CDLHOMINGPIGEON_sv,CDLHOMINGPIGEON_sl},
{"CDLIDENTICAL3CROWS","CdlIdentical3Crows","Pattern Recognition","Identical Three Crows",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLIDENTICAL3CROWS_lb,CDLIDENTICAL3CROWS_bd,CDLIDENTICAL3CROWS_bf,CDLIDENTICAL3CROWS_si,CDLIDENTICAL3CROWS_ss,CDLIDENTICAL3CROWS_sb,CDLIDENTICAL3CROWS_sf,CDLIDENTICAL3CROWS_sv,CDLIDENTICAL3CROWS_sl},
{"CDLINNECK","CdlInNeck","Pattern Recognition","In-Neck Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLINNECK_lb,CDLINNECK_bd,CDLINNECK_bf,CDLINNECK_si,CDLINNECK_ss,CDLINNECK_sb,CDLINNECK_sf,CDLINNECK_sv,CDLINNECK_sl},
{"CDLINVERTEDHAMMER","CdlInvertedHammer","Pattern Recognition","Inverted Hammer",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLINVERTEDHAMMER_lb,CDLINVERTEDHAMMER_bd,CDLINVERTEDHAMMER_bf,CDLINVERTEDHAMMER_si,CDLINVERTEDHAMMER_ss,CDLINVERTEDHAMMER_sb,CDLINVERTEDHAMMER_sf,CDLINVERTEDHAMMER_sv,CDLINVERTEDHAMMER_sl},
{"CDLKICKING","CdlKicking","Pattern Recognition","Kicking",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLKICKING_lb,CDLKICKING_bd,CDLKICKING_bf,CDLKICKING_si,CDLKICKING_ss,CDLKICKING_sb,CDLKICKING_sf,CDLKICKING_sv,CDLKICKING_sl},
{"CDLKICKINGBYLENGTH","CdlKickingByLength","Pattern Recognition","Kicking - bull/bear determined by the longer marubozu",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLKICKINGBYLENGTH_lb,CDLKICKINGBYLENGTH_bd,CDLKICKINGBYLENGTH_bf,CDLKICKINGBYLENGTH_si,CDLKICKINGBYLENGTH_ss,CDLKICKINGBYLENGTH_sb,CDLKICKINGBYLENGTH_sf,CDLKICKINGBYLENGTH_sv,CDLKICKINGBYLENGTH_sl},
{"CDLLADDERBOTTOM","CdlLadderBottom","Pattern Recognition","Ladder Bottom",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLLADDERBOTTOM_lb,CDLLADDERBOTTOM_bd,CDLLADDERBOTTOM_bf,CDLLADDERBOTTOM_si,CDLLADDERBOTTOM_ss,CDLLADDERBOTTOM_sb,CDLLADDERBOTTOM_sf,CDLLADDERBOTTOM_sv,CDLLADDERBOTTOM_sl},
{"CDLLONGLEGGEDDOJI","CdlLongLeggedDoji","Pattern Recognition","Long Legged Doji",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLLONGLEGGEDDOJI_lb,CDLLONGLEGGEDDOJI_bd,CDLLONGLEGGEDDOJI_bf,CDLLONGLEGGEDDOJI_si,CDLLONGLEGGEDDOJI_ss,CDLLONGLEGGEDDOJI_sb,CDLLONGLEGGEDDOJI_sf,CDLLONGLEGGEDDOJI_sv,CDLLONGLEGGEDDOJI_sl},
{"CDLLONGLINE","CdlLongLine","Pattern Recognition","Long Line Candle",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLLONGLINE_lb,CDLLONGLINE_bd,CDLLONGLINE_bf,CDLLONGLINE_si,CDLLONGLINE_ss,CDLLONGLINE_sb,CDLLONGLINE_sf,CDLLONGLINE_sv,CDLLONGLINE_sl},
{"CDLMARUBOZU","CdlMarubozu","Pattern Recognition","Marubozu",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLMARUBOZU_lb,CDLMARUBOZU_bd,CDLMARUBOZU_bf,CDLMARUBOZU_si,CDLMARUBOZU_ss,CDLMARUBOZU_sb,CDLMARUBOZU_sf,CDLMARUBOZU_sv,CDLMARUBOZU_sl},
{"CDLMATCHINGLOW","CdlMatchingLow","Pattern Recognition","Matching Low",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLMATCHINGLOW_lb,CDLMATCHINGLOW_bd,CDLMATCHINGLOW_bf,CDLMATCHINGLOW_si,CDLMATCHINGLOW_ss,CDLMATCHINGLOW_sb,CDLMATCHINGLOW_sf,CDLMATCHINGLOW_sv,CDLMATCHINGLOW_sl},
{"CDLMATHOLD","CdlMatHold","Pattern Recognition","Mat Hold",4,"OHLC",1,{{0,0.0,3e+37,0.5,"optInPenetration"}},1,{1},{"outInteger"},FL_CDL,CDLMATHOLD_lb,CDLMATHOLD_bd,CDLMATHOLD_bf,CDLMATHOLD_si,CDLMATHOLD_ss,CDLMATHOLD_sb,CDLMATHOLD_sf,CDLMATHOLD_sv,CDLMATHOLD_sl},
{"CDLMORNINGDOJISTAR","CdlMorningDojiStar","Pattern Recognition","Morning Doji Star",4,"OHLC",1,{{0,0.0,3e+37,0.3,"optInPenetration"}},1,{1},{"outInteger"},FL_CDL,CDLMORNINGDOJISTAR_lb,CDLMORNINGDOJISTAR_bd,CDLMORNINGDOJISTAR_bf,CDLMORNINGDOJISTAR_si,CDLMORNINGDOJISTAR_ss,CDLMORNINGDOJISTAR_sb,CDLMORNINGDOJISTAR_sf,CDLMORNINGDOJISTAR_sv,CDLMORNINGDOJISTAR_sl},
{"CDLMORNINGSTAR","CdlMorningStar","Pattern Recognition","Morning Star",4,"OHLC",1,{{0,0.0,3e+37,0.3,"optInPenetration"}},1,{1},{"outInteger"},FL_CDL,CDLMORNINGSTAR_lb,CDLMORNINGSTAR_bd,CDLMORNINGSTAR_bf,CDLMORNINGSTAR_si,CDLMORNINGSTAR_ss,CDLMORNINGSTAR_sb,CDLMORNINGSTAR_sf,CDLMORNINGSTAR_sv,CDLMORNINGSTAR_sl},
{"CDLONNECK","CdlOnNeck","Pattern Recognition","On-Neck Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLONNECK_lb,CDLONNECK_bd,CDLONNECK_bf,CDLONNECK_si,CDLONNECK_ss,CDLONNECK_sb,CDLONNECK_sf,CDLONNECK_sv,CDLONNECK_sl},
{"CDLPIERCING","CdlPiercing","Pattern Recognition","Piercing Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLPIERCING_lb,CDLPIERCING_bd,CDLPIERCING_bf,CDLPIERCING_si,CDLPIERCING_ss,CDLPIERCING_sb,CDLPIERCING_sf,CDLPIERCING_sv,CDLPIERCING_sl},
{"CDLRICKSHAWMAN","CdlRickshawMan","Pattern Recognition","Rickshaw Man",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLRICKSHAWMAN_lb,CDLRICKSHAWMAN_bd,CDLRICKSHAWMAN_bf,CDLRICKSHAWMAN_si,CDLRICKSHAWMAN_ss,CDLRICKSHAWMAN_sb,CDLRICKSHAWMAN_sf,CDLRICKSHAWMAN_sv,CDLRICKSHAWMAN_sl},
{"CDLRISEFALL3METHODS","CdlRiseFall3Methods","Pattern Recognition","Rising/Falling Three Methods",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLRISEFALL3METHODS_lb,CDLRISEFALL3METHODS_bd,CDLRISEFALL3METHODS_bf,CDLRISEFALL3METHODS_si,CDLRISEFALL3METHODS_ss,CDLRISEFALL3METHODS_sb,CDLRISEFALL3METHODS_sf,CDLRISEFALL3METHODS_sv,CDLRISEFALL3METHODS_sl},
{"CDLSEPARATINGLINES","CdlSeperatingLines","Pattern Recognition","Separating Lines",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLSEPARATINGLINES_lb,CDLSEPARATINGLINES_bd,CDLSEPARATINGLINES_bf,CDLSEPARATINGLINES_si,CDLSEPARATINGLINES_ss,CDLSEPARATINGLINES_sb,CDLSEPARATINGLINES_sf,CDLSEPARATINGLINES_sv,CDLSEPARATINGLINES_sl},
{"CDLSHOOTINGSTAR","CdlShootingStar","Pattern Recognition","Shooting Star",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLSHOOTINGSTAR_lb,CDLSHOOTINGSTAR_bd,CDLSHOOTINGSTAR_bf,CDLSHOOTINGSTAR_si,CDLSHOOTINGSTAR_ss,CDLSHOOTINGSTAR_sb,CDLSHOOTINGSTAR_sf,CDLSHOOTINGSTAR_sv,CDLSHOOTINGSTAR_sl},
{"CDLSHORTLINE","CdlShortLine","Pattern Recognition","Short Line Candle",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLSHORTLINE_lb,CDLSHORTLINE_bd,CDLSHORTLINE_bf,CDLSHORTLINE_si,CDLSHORTLINE_ss,CDLSHORTLINE_sb,CDLSHORTLINE_sf,CDLSHORTLINE_sv,CDLSHORTLINE_sl},
{"CDLSPINNINGTOP","CdlSpinningTop","Pattern Recognition","Spinning Top",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLSPINNINGTOP_lb,CDLSPINNINGTOP_bd,CDLSPINNINGTOP_bf,CDLSPINNINGTOP_si,CDLSPINNINGTOP_ss,CDLSPINNINGTOP_sb,CDLSPINNINGTOP_sf,CDLSPINNINGTOP_sv,CDLSPINNINGTOP_sl},
{"CDLSTALLEDPATTERN","CdlStalledPattern","Pattern Recognition","Stalled Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLSTALLEDPATTERN_lb,CDLSTALLEDPATTERN_bd,CDLSTALLEDPATTERN_bf,CDLSTALLEDPATTERN_si,CDLSTALLEDPATTERN_ss,CDLSTALLEDPATTERN_sb,CDLSTALLEDPATTERN_sf,CDLSTALLEDPATTERN_sv,CDLSTALLEDPATTERN_sl},
{"CDLSTICKSANDWICH","CdlStickSandwhich","Pattern Recognition","Stick Sandwich",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLSTICKSANDWICH_lb,CDLSTICKSANDWICH_bd,CDLSTICKSANDWICH_bf,CDLSTICKSANDWICH_si,CDLSTICKSANDWICH_ss,CDLSTICKSANDWICH_sb,CDLSTICKSANDWICH_sf,CDLSTICKSANDWICH_sv,CDLSTICKSANDWICH_sl},
{"CDLTAKURI","CdlTakuri","Pattern Recognition","Takuri (Dragonfly Doji with very long lower shadow)",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLTAKURI_lb,CDLTAKURI_bd,CDLTAKURI_bf,CDLTAKURI_si,CDLTAKURI_ss,CDLTAKURI_sb,CDLTAKURI_sf,CDLTAKURI_sv,CDLTAKURI_sl},
{"CDLTASUKIGAP","CdlTasukiGap","Pattern Recognition","Tasuki Gap",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLTASUKIGAP_lb,CDLTASUKIGAP_bd,CDLTASUKIGAP_bf,CDLTASUKIGAP_si,CDLTASUKIGAP_ss,CDLTASUKIGAP_sb,CDLTASUKIGAP_sf,CDLTASUKIGAP_sv,CDLTASUKIGAP_sl},
{"CDLTHRUSTING","CdlThrusting","Pattern Recognition","Thrusting Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLTHRUSTING_lb,CDLTHRUSTING_bd,CDLTHRUSTING_bf,CDLTHRUSTING_si,CDLTHRUSTING_ss,CDLTHRUSTING_sb,CDLTHRUSTING_sf,CDLTHRUSTING_sv,CDLTHRUSTING_sl},
{"CDLTRISTAR","CdlTristar","Pattern Recognition","Tristar Pattern",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLTRISTAR_lb,CDLTRISTAR_bd,CDLTRISTAR_bf,CDLTRISTAR_si,CDLTRISTAR_ss,CDLTRISTAR_sb,CDLTRISTAR_sf,CDLTRISTAR_sv,CDLTRISTAR_sl},
{"CDLUNIQUE3RIVER","CdlUnique3River","Pattern Recognition","Unique 3 River",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLUNIQUE3RIVER_lb,CDLUNIQUE3RIVER_bd,CDLUNIQUE3RIVER_bf,CDLUNIQUE3RIVER_si,CDLUNIQUE3RIVER_ss,CDLUNIQUE3RIVER_sb,CDLUNIQUE3RIVER_sf,CDLUNIQUE3RIVER_sv,CDLUNIQUE3RIVER_sl},
{"CDLUPSIDEGAP2CROWS","CdlUpsideGap2Crows","Pattern Recognition","Upside Gap Two Crows",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLUPSIDEGAP2CROWS_lb,CDLUPSIDEGAP2CROWS_bd,CDLUPSIDEGAP2CROWS_bf,CDLUPSIDEGAP2CROWS_si,CDLUPSIDEGAP2CROWS_ss,CDLUPSIDEGAP2CROWS_sb,CDLUPSIDEGAP2CROWS_sf,CDLUPSIDEGAP2CROWS_sv,CDLUPSIDEGAP2CROWS_sl},
{"CDLXSIDEGAP3METHODS","CdlXSideGap3Methods","Pattern Recognition","Upside/Downside Gap Three Methods",4,"OHLC",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_CDL,CDLXSIDEGAP3METHODS_lb,CDLXSIDEGAP3METHODS_bd,CDLXSIDEGAP3METHODS_bf,CDLXSIDEGAP3METHODS_si,CDLXSIDEGAP3METHODS_ss,CDLXSIDEGAP3METHODS_sb,CDLXSIDEGAP3METHODS_sf,CDLXSIDEGAP3METHODS_sv,CDLXSIDEGAP3METHODS_sl},
{"CEIL","Ceil","Math Transform","Vector Ceil",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,CEIL_lb,CEIL_bd,CEIL_bf,CEIL_si,CEIL_ss,CEIL_sb,CEIL_sf,CEIL_sv,CEIL_sl},
{"CMO","Cmo","Momentum Indicators","Chande Momentum Oscillator",1,"r",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,CMO_lb,CMO_bd,CMO_bf,CMO_si,CMO_ss,CMO_sb,CMO_sf,CMO_sv,CMO_sl},
{"CORREL","Correl","Statistic Functions","Pearson's Correlation Coefficient (r)",2,"rs",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},0,CORREL_lb,CORREL_bd,CORREL_bf,CORREL_si,CORREL_ss,CORREL_sb,CORREL_sf,CORREL_sv,CORREL_sl},
{"COS","Cos","Math Transform","Vector Trigonometric Cos",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,COS_lb,COS_bd,COS_bf,COS_si,COS_ss,COS_sb,COS_sf,COS_sv,COS_sl},
{"COSH","Cosh","Math Transform","Vector Trigonometric Cosh",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,COSH_lb,COSH_bd,COSH_bf,COSH_si,COSH_ss,COSH_sb,COSH_sf,COSH_sv,COSH_sl},
{"DEMA","Dema","Overlap Studies","Double Exponential Moving Average",1,"r",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,DEMA_lb,DEMA_bd,DEMA_bf,DEMA_si,DEMA_ss,DEMA_sb,DEMA_sf,DEMA_sv,DEMA_sl},
{"DIV","Div","Math Operators","Vector Arithmetic Div",2,"rs",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,DIV_lb,DIV_bd,DIV_bf,DIV_si,DIV_ss,DIV_sb,DIV_sf,DIV_sv,DIV_sl},
{"DX","Dx","Momentum Indicators","Directional Movement Index",3,"HLC",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,DX_lb,DX_bd,DX_bf,DX_si,DX_ss,DX_sb,DX_sf,DX_sv,DX_sl},
{"EMA","Ema","Overlap Studies","Exponential Moving Average",1,"r",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST|FL_OVER,EMA_lb,EMA_bd,EMA_bf,EMA_si,EMA_ss,EMA_sb,EMA_sf,EMA_sv,EMA_sl},
{"EXP","Exp","Math Transform","Vector Arithmetic Exp",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,EXP_lb,EXP_bd,EXP_bf,EXP_si,EXP_ss,EXP_sb,EXP_sf,EXP_sv,EXP_sl},
{"FLOOR","Floor","Math Transform","Vector Floor",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,FLOOR_lb,FLOOR_bd,FLOOR_bf,FLOOR_si,FLOOR_ss,FLOOR_sb,FLOOR_sf,FLOOR_sv,FLOOR_sl},
{"HT_DCPERIOD","HtDcPeriod","Cycle Indicators","Hilbert Transform - Dominant Cycle Period",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},FL_UNST,HT_DCPERIOD_lb,HT_DCPERIOD_bd,HT_DCPERIOD_bf,HT_DCPERIOD_si,HT_DCPERIOD_ss,HT_DCPERIOD_sb,HT_DCPERIOD_sf,HT_DCPERIOD_sv,HT_DCPERIOD_sl},
{"HT_DCPHASE","HtDcPhase","Cycle Indicators","Hilbert Transform - Dominant Cycle Phase",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},FL_UNST,HT_DCPHASE_lb,HT_DCPHASE_bd,HT_DCPHASE_bf,HT_DCPHASE_si,HT_DCPHASE_ss,HT_DCPHASE_sb,HT_DCPHASE_sf,HT_DCPHASE_sv,HT_DCPHASE_sl},
{"HT_PHASOR","HtPhasor","Cycle Indicators","Hilbert Transform - Phasor Components",1,"r",0,{{0,0,0,0,0}},2,{0,0},{"outInPhase","outQuadrature"},FL_UNST,HT_PHASOR_lb,HT_PHASOR_bd,HT_PHASOR_bf,HT_PHASOR_si,HT_PHASOR_ss,HT_PHASOR_sb,HT_PHASOR_sf,HT_PHASOR_sv,HT_PHASOR_sl},
{"HT_SINE","HtSine","Cycle Indicators","Hilbert Transform - SineWave",1,"r",0,{{0,0,0,0,0}},2,{0,0},{"outSine","outLeadSine"},FL_UNST,HT_SINE_lb,HT_SINE_bd,HT_SINE_bf,HT_SINE_si,HT_SINE_ss,HT_SINE_sb,HT_SINE_sf,HT_SINE_sv,HT_SINE_sl},
{"HT_TRENDLINE","HtTrendline","Overlap Studies","Hilbert Transform - Instantaneous Trendline",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},FL_UNST|FL_OVER,HT_TRENDLINE_lb,HT_TRENDLINE_bd,HT_TRENDLINE_bf,HT_TRENDLINE_si,HT_TRENDLINE_ss,HT_TRENDLINE_sb,HT_TRENDLINE_sf,HT_TRENDLINE_sv,HT_TRENDLINE_sl},
{"HT_TRENDMODE","HtTrendMode","Cycle Indicators","Hilbert Transform - Trend vs Cycle Mode",1,"r",0,{{0,0,0,0,0}},1,{1},{"outInteger"},FL_UNST,HT_TRENDMODE_lb,HT_TRENDMODE_bd,HT_TRENDMODE_bf,HT_TRENDMODE_si,HT_TRENDMODE_ss,HT_TRENDMODE_sb,HT_TRENDMODE_sf,HT_TRENDMODE_sv,HT_TRENDMODE_sl},
{"IMI","Imi","Momentum Indicators","Intraday Momentum Index",2,"OC",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,IMI_lb,IMI_bd,IMI_bf,IMI_si,IMI_ss,IMI_sb,IMI_sf,IMI_sv,IMI_sl},
{"KAMA","Kama","Overlap Studies","Kaufman Adaptive Moving Average",1,"r",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST|FL_OVER,KAMA_lb,KAMA_bd,KAMA_bf,KAMA_si,KAMA_ss,KAMA_sb,KAMA_sf,KAMA_sv,KAMA_sl},
{"LINEARREG","LinearReg","Statistic Functions","Linear Regression",1,"r",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,LINEARREG_lb,LINEARREG_bd,LINEARREG_bf,LINEARREG_si,LINEARREG_ss,LINEARREG_sb,LINEARREG_sf,LINEARREG_sv,LINEARREG_sl},
{"LINEARREG_ANGLE","LinearRegAngle","Statistic Functions","Linear Regression Angle",1,"r",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},0,LINEARREG_ANGLE_lb,LINEARREG_ANGLE_bd,LINEARREG_ANGLE_bf,LINEARREG_ANGLE_si,LINEARREG_ANGLE_ss,LINEARREG_ANGLE_sb,LINEARREG_ANGLE_sf,LINEARREG_ANGLE_sv,LINEARREG_ANGLE_sl},
{"LINEARREG_INTERCEPT","LinearRegIntercept","Statistic Functions","Linear Regression Intercept",1,"r",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,LINEARREG_INTERCEPT_lb,LINEARREG_INTERCEPT_bd,LINEARREG_INTERCEPT_bf,LINEARREG_INTERCEPT_si,LINEARREG_INTERCEPT_ss,LINEARREG_INTERCEPT_sb,LINEARREG_INTERCEPT_sf,LINEARREG_INTERCEPT_sv,LINEARREG_INTERCEPT_sl},
{"LINEARREG_SLOPE","LinearRegSlope","Statistic Functions","Linear Regression Slope",1,"r",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},0,LINEARREG_SLOPE_lb,LINEARREG_SLOPE_bd,LINEARREG_SLOPE_bf,LINEARREG_SLOPE_si,LINEARREG_SLOPE_ss,LINEARREG_SLOPE_sb,LINEARREG_SLOPE_sf,LINEARREG_SLOPE_sv,LINEARREG_SLOPE_sl},
{"LN","Ln","Math Transform","Vector Log Natural",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,LN_lb,LN_bd,LN_bf,LN_si,LN_ss,LN_sb,LN_sf,LN_sv,LN_sl},
{"LOG10","Log10","Math Transform","Vector Log10",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,LOG10_lb,LOG10_bd,LOG10_bf,LOG10_si,LOG10_ss,LOG10_sb,LOG10_sf,LOG10_sv,LOG10_sl},
{"MA","MovingAverage","Overlap Studies","Moving average",1,"r",2,{{1,1.0,100000.0,30.0,"optInTimePeriod"},{2,0,9,0.0,"optInMAType"}},1,{0},{"outReal"},FL_OVER,MA_lb,MA_bd,MA_bf,MA_si,MA_ss,MA_sb,MA_sf,MA_sv,MA_sl},
{"MACD","Macd","Momentum Indicators","Moving Average Convergence/Divergence",1,"r",3,{{1,2.0,100000.0,12.0,"optInFastPeriod"},{1,2.0,100000.0,26.0,"optInSlowPeriod"},{1,1.0,100000.0,9.0,"optInSignalPeriod"}},3,{0,0,0},{"outMACD","outMACDSignal","outMACDHist"},0,MACD_lb,MACD_bd,MACD_bf,MACD_si,MACD_ss,MACD_sb,MACD_sf,MACD_sv,MACD_sl},
{"MACDEXT","MacdExt","Momentum Indicators","MACD with controllable MA type",1,"r",6,{{1,2.0,100000.0,12.0,"optInFastPeriod"},{2,0,9,0.0,"optInFastMAType"},{1,2.0,100000.0,26.0,"optInSlowPeriod"},{2,0,9,0.0,"optInSlowMAType"},{1,1.0,100000.0,9.0,"optInSignalPeriod"},{2,0,9,0.0,"optInSignalMAType"}},3,{0,0,0},{"outMACD","outMACDSignal","outMACDHist"},0,MACDEXT_lb,MACDEXT_bd,MACDEXT_bf,MACDEXT_si,MACDEXT_ss,MACDEXT_sb,MACDEXT_sf,MACDEXT_sv,MACDEXT_sl},
{"MACDFIX","MacdFix","Momentum Indicators","Moving Average Convergence/Divergence Fix 12/26",1,"r",1,{{1,1.0,100000.0,9.0,"optInSignalPeriod"}},3,{0,0,0},{"outMACD","outMACDSignal","outMACDHist"},0,MACDFIX_lb,MACDFIX_bd,MACDFIX_bf,MACDFIX_si,MACDFIX_ss,MACDFIX_sb,MACDFIX_sf,MACDFIX_sv,MACDFIX_sl},
{"MAMA","Mama","Overlap Studies","MESA Adaptive Moving Average",1,"r",2,{{0,0.01,0.99,0.5,"optInFastLimit"},{0,0.01,0.99,0.05,"optInSlowLimit"}},2,{0,0},{"outMAMA","outFAMA"},FL_UNST|FL_OVER,MAMA_lb,MAMA_bd,MAMA_bf,MAMA_si,MAMA_ss,MAMA_sb,MAMA_sf,MAMA_sv,MAMA_sl},
{"MAVP","MovingAverageVariablePeriod","Overlap Studies","Moving average with variable period",2,"rp",3,{{1,2.0,100000.0,2.0,"optInMinPeriod"},{1,2.0,100000.0,30.0,"optInMaxPeriod"},{2,0,9,0.0,"optInMAType"}},1,{0},{"outReal"},FL_OVER,MAVP_lb,MAVP_bd,MAVP_bf,MAVP_si,MAVP_ss,MAVP_sb,MAVP_sf,MAVP_sv,MAVP_sl},
{"MAX","Max","Math Operators","Highest value over a specified period",1,"r",1,{{1,2.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,MAX_lb,MAX_bd,MAX_bf,MAX_si,MAX_ss,MAX_sb,MAX_sf,MAX_sv,MAX_sl},
{"MAXINDEX","MaxIndex","Math Operators","Index of highest value over a specified period",1,"r",1,{{1,2.0,100000.0,30.0,"optInTimePeriod"}},1,{1},{"outInteger"},0,MAXINDEX_lb,MAXINDEX_bd,MAXINDEX_bf,MAXINDEX_si,MAXINDEX_ss,MAXINDEX_sb,MAXINDEX_sf,MAXINDEX_sv,MAXINDEX_sl},
{"MEDPRICE","MedPrice","Price Transform","Median Price",2,"HL",0,{{0,0,0,0,0}},1,{0},{"outReal"},FL_OVER,MEDPRICE_lb,MEDPRICE_bd,MEDPRICE_bf,MEDPRICE_si,MEDPRICE_ss,MEDPRICE_sb,MEDPRICE_sf,MEDPRICE_sv,MEDPRICE_sl},
{"MFI","Mfi","Momentum Indicators","Money Flow Index",4,"HLCV",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,MFI_lb,MFI_bd,MFI_bf,MFI_si,MFI_ss,MFI_sb,MFI_sf,MFI_sv,MFI_sl},
{"MIDPOINT","MidPoint","Overlap Studies","MidPoint over period",1,"r",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,MIDPOINT_lb,MIDPOINT_bd,MIDPOINT_bf,MIDPOINT_si,MIDPOINT_ss,MIDPOINT_sb,MIDPOINT_sf,MIDPOINT_sv,MIDPOINT_sl},
{"MIDPRICE","MidPrice","Overlap Studies","Midpoint Price over period",2,"HL",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,MIDPRICE_lb,MIDPRICE_bd,MIDPRICE_bf,MIDPRICE_si,MIDPRICE_ss,MIDPRICE_sb,MIDPRICE_sf,MIDPRICE_sv,MIDPRICE_sl},
{"MIN","Min","Math Operators","Lowest value over a specified period",1,"r",1,{{1,2.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,MIN_lb,MIN_bd,MIN_bf,MIN_si,MIN_ss,MIN_sb,MIN_sf,MIN_sv,MIN_sl},
{"MININDEX","MinIndex","Math Operators","Index of lowest value over a specified period",1,"r",1,{{1,2.0,100000.0,30.0,"optInTimePeriod"}},1,{1},{"outInteger"},0,MININDEX_lb,MININDEX_bd,MININDEX_bf,MININDEX_si,MININDEX_ss,MININDEX_sb,MININDEX_sf,MININDEX_sv,MININDEX_sl},
{"MINMAX","MinMax","Math Operators","Lowest and highest values over a specified period",1,"r",1,{{1,2.0,100000.0,30.0,"optInTimePeriod"}},2,{0,0},{"outMin","outMax"},FL_OVER,MINMAX_lb,MINMAX_bd,MINMAX_bf,MINMAX_si,MINMAX_ss,MINMAX_sb,MINMAX_sf,MINMAX_sv,MINMAX_sl},
{"MINMAXINDEX","MinMaxIndex","Math Operators","Indexes of lowest and highest values over a specified period",1,"r",1,{{1,2.0,100000.0,30.0,"optInTimePeriod"}},2,{1,1},{"outMinIdx","outMaxIdx"},0,MINMAXINDEX_lb,MINMAXINDEX_bd,MINMAXINDEX_bf,MINMAXINDEX_si,MINMAXINDEX_ss,MINMAXINDEX_sb,MINMAXINDEX_sf,MINMAXINDEX_sv,MINMAXINDEX_sl},
{"MINUS_DI","MinusDI","Momentum Indicators","Minus Directional Indicator",3,"HLC",1,{{1,1.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,MINUS_DI_lb,MINUS_DI_bd,MINUS_DI_bf,MINUS_DI_si,MINUS_DI_ss,MINUS_DI_sb,MINUS_DI_sf,MINUS_DI_sv,MINUS_DI_sl},
{"MINUS_DM","MinusDM","Momentum Indicators","Minus Directional Movement",2,"HL",1,{{1,1.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,MINUS_DM_lb,MINUS_DM_bd,MINUS_DM_bf,MINUS_DM_si,MINUS_DM_ss,MINUS_DM_sb,MINUS_DM_sf,MINUS_DM_sv,MINUS_DM_sl},
{"MOM","Mom","Momentum Indicators","Momentum",1,"r",1,{{1,1.0,100000.0,10.0,"optInTimePeriod"}},1,{0},{"outReal"},0,MOM_lb,MOM_bd,MOM_bf,MOM_si,MOM_ss,MOM_sb,MOM_sf,MOM_sv,MOM_sl},
{"MULT","Mult","Math Operators","Vector Arithmetic Mult",2,"rs",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,MULT_lb,MULT_bd,MULT_bf,MULT_si,MULT_ss,MULT_sb,MULT_sf,MULT_sv,MULT_sl},
{"NATR","Natr","Volatility Indicators","Normalized Average True Range",3,"HLC",1,{{1,1.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,NATR_lb,NATR_bd,NATR_bf,NATR_si,NATR_ss,NATR_sb,NATR_sf,NATR_sv,NATR_sl},
{"NVI","Nvi","Volume Indicators","Negative Volume Index",2,"CV",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,NVI_lb,NVI_bd,NVI_bf,NVI_si,NVI_ss,NVI_sb,NVI_sf,NVI_sv,NVI_sl},
{"OBV","Obv","Volume Indicators","On Balance Volume",2,"CV",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,OBV_lb,OBV_bd,OBV_bf,OBV_si,OBV_ss,OBV_sb,OBV_sf,OBV_sv,OBV_sl},
{"PLUS_DI","PlusDI","Momentum Indicators","Plus Directional Indicator",3,"HLC",1,{{1,1.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,PLUS_DI_lb,PLUS_DI_bd,PLUS_DI_bf,PLUS_DI_si,PLUS_DI_ss,PLUS_DI_sb,PLUS_DI_sf,PLUS_DI_sv,PLUS_DI_sl},
{"PLUS_DM","PlusDM","Momentum Indicators","Plus Directional Movement",2,"HL",1,{{1,1.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,PLUS_DM_lb,PLUS_DM_bd,PLUS_DM_bf,PLUS_DM_si,PLUS_DM_ss,PLUS_DM_sb,PLUS_DM_sf,PLUS_DM_sv,PLUS_DM_sl},
{"PPO","Ppo","Momentum Indicators","Percentage Price Oscillator",1,"r",3,{{1,2.0,100000.0,12.0,"optInFastPeriod"},{1,2.0,100000.0,26.0,"optInSlowPeriod"},{2,0,9,0.0,"optInMAType"}},1,{0},{"outReal"},0,PPO_lb,PPO_bd,PPO_bf,PPO_si,PPO_ss,PPO_sb,PPO_sf,PPO_sv,PPO_sl},
{"PVI","Pvi","Volume Indicators","Positive Volume Index",2,"CV",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,PVI_lb,PVI_bd,PVI_bf,PVI_si,PVI_ss,PVI_sb,PVI_sf,PVI_sv,PVI_sl},
{"PVT","Pvt","Volume Indicators","Price Volume Trend",2,"CV",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,PVT_lb,PVT_bd,PVT_bf,PVT_si,PVT_ss,PVT_sb,PVT_sf,PVT_sv,PVT_sl},
{"ROC","Roc","Momentum Indicators","Rate of change : ((price/prevPrice)-1)*100",1,"r",1,{{1,1.0,100000.0,10.0,"optInTimePeriod"}},1,{0},{"outReal"},0,ROC_lb,ROC_bd,ROC_bf,ROC_si,ROC_ss,ROC_sb,ROC_sf,ROC_sv,ROC_sl},
{"ROCP","RocP","Momentum Indicators","Rate of change Percentage: (price-prevPrice)/prevPrice",1,"r",1,{{1,1.0,100000.0,10.0,"optInTimePeriod"}},1,{0},{"outReal"},0,ROCP_lb,ROCP_bd,ROCP_bf,ROCP_si,ROCP_ss,ROCP_sb,ROCP_sf,ROCP_sv,ROCP_sl},
{"ROCR","RocR","Momentum Indicators","Rate of change ratio: (price/prevPrice)",1,"r",1,{{1,1.0,100000.0,10.0,"optInTimePeriod"}},1,{0},{"outReal"},0,ROCR_lb,ROCR_bd,ROCR_bf,ROCR_si,ROCR_ss,ROCR_sb,ROCR_sf,ROCR_sv,ROCR_sl},
{"ROCR100","RocR100","Momentum Indicators","Rate of change ratio 100 scale: (price/prevPrice)*100",1,"r",1,{{1,1.0,100000.0,10.0,"optInTimePeriod"}},1,{0},{"outReal"},0,ROCR100_lb,ROCR100_bd,ROCR100_bf,ROCR100_si,ROCR100_ss,ROCR100_sb,ROCR100_sf,ROCR100_sv,ROCR100_sl},
{"RSI","Rsi","Momentum Indicators","Relative Strength Index",1,"r",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST,RSI_lb,RSI_bd,RSI_bf,RSI_si,RSI_ss,RSI_sb,RSI_sf,RSI_sv,RSI_sl},
{"SAR","Sar","Overlap Studies","Parabolic SAR",2,"HL",2,{{0,0.0,3e+37,0.02,"optInAcceleration"},{0,0.0,3e+37,0.2,"optInMaximum"}},1,{0},{"outReal"},FL_OVER,SAR_lb,SAR_bd,SAR_bf,SAR_si,SAR_ss,SAR_sb,SAR_sf,SAR_sv,SAR_sl},
{"SAREXT","SarExt","Overlap Studies","Parabolic SAR - Extended",2,"HL",8,{{0,-3e+37,3e+37,0.0,"optInStartValue"},{0,0.0,3e+37,0.0,"optInOffsetOnReverse"},{0,0.0,3e+37,0.02,"optInAccelerationInitLong"},{0,0.0,3e+37,0.02,"optInAccelerationLong"},{0,0.0,3e+37,0.2,"optInAccelerationMaxLong"},{0,0.0,3e+37,0.02,"optInAccelerationInitShort"},{0,0.0,3e+37,0.02,"optInAccelerationShort"},{0,0.0,3e+37,0.2,"optInAccelerationMaxShort"}},1,{0},{"outReal"},FL_OVER,SAREXT_lb,SAREXT_bd,SAREXT_bf,SAREXT_si,SAREXT_ss,SAREXT_sb,SAREXT_sf,SAREXT_sv,SAREXT_sl},
{"SIN","Sin","Math Transform","Vector Trigonometric Sin",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,SIN_lb,SIN_bd,SIN_bf,SIN_si,SIN_ss,SIN_sb,SIN_sf,SIN_sv,SIN_sl},
{"SINH","Sinh","Math Transform","Vector Trigonometric Sinh",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,SINH_lb,SINH_bd,SINH_bf,SINH_si,SINH_ss,SINH_sb,SINH_sf,SINH_sv,SINH_sl},
{"SMA","Sma","Overlap Studies","Simple Moving Average",1,"r",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,SMA_lb,SMA_bd,SMA_bf,SMA_si,SMA_ss,SMA_sb,SMA_sf,SMA_sv,SMA_sl},
{"SQRT","Sqrt","Math Transform","Vector Square Root",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,SQRT_lb,SQRT_bd,SQRT_bf,SQRT_si,SQRT_ss,SQRT_sb,SQRT_sf,SQRT_sv,SQRT_sl},
{"STDDEV","StdDev","Statistic Functions","Standard Deviation",1,"r",2,{{1,2.0,100000.0,5.0,"optInTimePeriod"},{0,-3e+37,3e+37,1.0,"optInNbDev"}},1,{0},{"outReal"},0,STDDEV_lb,STDDEV_bd,STDDEV_bf,STDDEV_si,STDDEV_ss,STDDEV_sb,STDDEV_sf,STDDEV_sv,STDDEV_sl},
{"STOCH","Stoch","Momentum Indicators","Stochastic",3,"HLC",5,{{1,1.0,100000.0,5.0,"optInFastK_Period"},{1,1.0,100000.0,3.0,"optInSlowK_Period"},{2,0,9,0.0,"optInSlowK_MAType"},{1,1.0,100000.0,3.0,"optInSlowD_Period"},{2,0,9,0.0,"optInSlowD_MAType"}},2,{0,0},{"outSlowK","outSlowD"},0,STOCH_lb,STOCH_bd,STOCH_bf,STOCH_si,STOCH_ss,STOCH_sb,STOCH_sf,STOCH_sv,STOCH_sl},
{"STOCHF","StochF","Momentum Indicators","Stochastic Fast",3,"HLC",3,{{1,1.0,100000.0,5.0,"optInFastK_Period"},{1,1.0,100000.0,3.0,"optInFastD_Period"},{2,0,9,0.0,"optInFastD_MAType"}},2,{0,0},{"outFastK","outFastD"},0,STOCHF_lb,STOCHF_bd,STOCHF_bf,STOCHF_si,STOCHF_ss,STOCHF_sb,STOCHF_sf,STOCHF_sv,STOCHF_sl},
{"STOCHRSI","StochRsi","Momentum Indicators","Stochastic Relative Strength Index",1,"r",4,{{1,2.0,100000.0,14.0,"optInTimePeriod"},{1,1.0,100000.0,5.0,"optInFastK_Period"},{1,1.0,100000.0,3.0,"optInFastD_Period"},{2,0,9,0.0,"optInFastD_MAType"}},2,{0,0},{"outFastK","outFastD"},FL_UNST,STOCHRSI_lb,STOCHRSI_bd,STOCHRSI_bf,STOCHRSI_si,STOCHRSI_ss,STOCHRSI_sb,STOCHRSI_sf,STOCHRSI_sv,STOCHRSI_sl},
{"SUB","Sub","Math Operators","Vector Arithmetic Substraction",2,"rs",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,SUB_lb,SUB_bd,SUB_bf,SUB_si,SUB_ss,SUB_sb,SUB_sf,SUB_sv,SUB_sl},
{"SUM","Sum","Math Operators","Summation",1,"r",1,{{1,2.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},0,SUM_lb,SUM_bd,SUM_bf,SUM_si,SUM_ss,SUM_sb,SUM_sf,SUM_sv,SUM_sl},
{"T3","T3","Overlap Studies","Triple Exponential Moving Average (T3)",1,"r",2,{{1,1.0,100000.0,5.0,"optInTimePeriod"},{0,0.0,1.0,0.7,"optInVFactor"}},1,{0},{"outReal"},FL_UNST|FL_OVER,T3_lb,T3_bd,T3_bf,T3_si,T3_ss,T3_sb,T3_sf,T3_sv,T3_sl},
{"TAN","Tan","Math Transform","Vector Trigonometric Tan",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,TAN_lb,TAN_bd,TAN_bf,TAN_si,TAN_ss,TAN_sb,TAN_sf,TAN_sv,TAN_sl},
{"TANH","Tanh","Math Transform","Vector Trigonometric Tanh",1,"r",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,TANH_lb,TANH_bd,TANH_bf,TANH_si,TANH_ss,TANH_sb,TANH_sf,TANH_sv,TANH_sl},
{"TEMA","Tema","Overlap Studies","Triple Exponential Moving Average",1,"r",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,TEMA_lb,TEMA_bd,TEMA_bf,TEMA_si,TEMA_ss,TEMA_sb,TEMA_sf,TEMA_sv,TEMA_sl},
{"TRANGE","TrueRange","Volatility Indicators","True Range",3,"HLC",0,{{0,0,0,0,0}},1,{0},{"outReal"},0,TRANGE_lb,TRANGE_bd,TRANGE_bf,TRANGE_si,TRANGE_ss,TRANGE_sb,TRANGE_sf,TRANGE_sv,TRANGE_sl},
{"TRIMA","Trima","Overlap Studies","Triangular Moving Average",1,"r",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,TRIMA_lb,TRIMA_bd,TRIMA_bf,TRIMA_si,TRIMA_ss,TRIMA_sb,TRIMA_sf,TRIMA_sv,TRIMA_sl},
{"TRIX","Trix","Momentum Indicators","1-day Rate-Of-Change (ROC) of a Triple Smooth EMA",1,"r",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},0,TRIX_lb,TRIX_bd,TRIX_bf,TRIX_si,TRIX_ss,TRIX_sb,TRIX_sf,TRIX_sv,TRIX_sl},
{"TSF","Tsf","Statistic Functions","Time Series Forecast",1,"r",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,TSF_lb,TSF_bd,TSF_bf,TSF_si,TSF_ss,TSF_sb,TSF_sf,TSF_sv,TSF_sl},
{"TYPPRICE","TypPrice","Price Transform","Typical Price",3,"HLC",0,{{0,0,0,0,0}},1,{0},{"outReal"},FL_OVER,TYPPRICE_lb,TYPPRICE_bd,TYPPRICE_bf,TYPPRICE_si,TYPPRICE_ss,TYPPRICE_sb,TYPPRICE_sf,TYPPRICE_sv,TYPPRICE_sl},
{"ULTOSC","UltOsc","Momentum Indicators","Ultimate Oscillator",3,"HLC",3,{{1,1.0,100000.0,7.0,"optInTimePeriod1"},{1,1.0,100000.0,14.0,"optInTimePeriod2"},{1,1.0,100000.0,28.0,"optInTimePeriod3"}},1,{0},{"outReal"},0,ULTOSC_lb,ULTOSC_bd,ULTOSC_bf,ULTOSC_si,ULTOSC_ss,ULTOSC_sb,ULTOSC_sf,ULTOSC_sv,ULTOSC_sl},
{"VAR","Variance","Statistic Functions","Variance",1,"r",2,{{1,1.0,100000.0,5.0,"optInTimePeriod"},{0,-3e+37,3e+37,1.0,"optInNbDev"}},1,{0},{"outReal"},0,VAR_lb,VAR_bd,VAR_bf,VAR_si,VAR_ss,VAR_sb,VAR_sf,VAR_sv,VAR_sl},
{"WCLPRICE","WclPrice","Price Transform","Weighted Close Price",3,"HLC",0,{{0,0,0,0,0}},1,{0},{"outReal"},FL_OVER,WCLPRICE_lb,WCLPRICE_bd,WCLPRICE_bf,WCLPRICE_si,WCLPRICE_ss,WCLPRICE_sb,WCLPRICE_sf,WCLPRICE_sv,WCLPRICE_sl},
{"WILLR","WillR","Momentum Indicators","Williams' %R",3,"HLC",1,{{1,2.0,100000.0,14.0,"optInTimePeriod"}},1,{0},{"outReal"},0,WILLR_lb,WILLR_bd,WILLR_bf,WILLR_si,WILLR_ss,WILLR_sb,WILLR_sf,WILLR_sv,WILLR_sl},
{"WLMA","Wlma","Overlap Studies","Wilders Moving Average",1,"r",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_UNST|FL_OVER,WLMA_lb,WLMA_bd,WLMA_bf,WLMA_si,WLMA_ss,WLMA_sb,WLMA_sf,WLMA_sv,WLMA_sl},
{"WMA","Wma","Overlap Studies","Weighted Moving Average",1,"r",1,{{1,1.0,100000.0,30.0,"optInTimePeriod"}},1,{0},{"outReal"},FL_OVER,WMA_lb,WMA_bd,WMA_bf,WMA_si,WMA_ss,WMA_sb,WMA_sf,WMA_sv,WMA_sl}
};
const int NFN=165;
