/* Text codec for values, objects and filters used by the agent and the unit drivers. */
#pragma once
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <stdbool.h>
#include <ctype.h>
#include <rbus.h>

typedef struct { char* p; size_t n, cap; } sb_t;
static void sb_need(sb_t* s, size_t k){ if(s->n + k + 1 > s->cap){ s->cap = (s->n + k + 1) * 2; s->p = realloc(s->p, s->cap);} }
static void sb_c(sb_t* s, char c){ sb_need(s,1); s->p[s->n++] = c; s->p[s->n] = 0; }
static void sb_s(sb_t* s, const char* t){ size_t k = strlen(t); sb_need(s,k); memcpy(s->p+s->n,t,k+1); s->n += k; }
static void sb_f(sb_t* s, const char* fmt, ...) __attribute__((format(printf,2,3)));
static void sb_f(sb_t* s, const char* fmt, ...)
{
  char b[256]; va_list ap; __builtin_va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); __builtin_va_end(ap); sb_s(s,b);
}
static int safe_ch(unsigned char c){ return isalnum(c) || strchr("._-{}[]*/#@",c) != NULL; }
/* NULL -> "!", "" -> "~" */
static void sb_pct_n(sb_t* s, const char* t, size_t n)
{
  if(!t){ sb_c(s,'!'); return; }
  if(n == 0){ sb_c(s,'~'); return; }
  for(size_t i=0;i<n;i++){ unsigned char c = (unsigned char)t[i]; if(c && safe_ch(c)) sb_c(s,(char)c); else sb_f(s,"%%%02X",c); }
}
static void sb_pct(sb_t* s, const char* t){ sb_pct_n(s,t,t?strlen(t):0); }
static void sb_hex(sb_t* s, const uint8_t* b, size_t n)
{
  if(!b){ sb_c(s,'!'); return; }
  if(!n){ sb_c(s,'~'); return; }
  static const char d[]="0123456789abcdef";
  sb_need(s,2*n);
  for(size_t i=0;i<n;i++){ s->p[s->n++]=d[b[i]>>4]; s->p[s->n++]=d[b[i]&15]; }
  s->p[s->n]=0;
}
static int hexv(int c){ return c<='9'? c-'0' : (c|32)-'a'+10; }
/* decode token up to one of the stop chars; returns malloc'ed string or NULL for "!" */
static char* pct_dec(const char** pp, const char* stop)
{
  const char* p = *pp; const char* e = p;
  while(*e && !strchr(stop,*e)) e++;
  *pp = e;
  if(e-p==1 && *p=='!') return NULL;
  char* r = malloc(e-p+1); size_t k=0;
  if(!(e-p==1 && *p=='~'))
    for(;p<e;){ if(*p=='%'){ r[k++]=(char)(hexv(p[1])*16+hexv(p[2])); p+=3;} else r[k++]=*p++; }
  r[k]=0; return r;
}
static char* tokdec(const char* t){ return pct_dec(&t," "); }
static uint8_t* hexdec(const char* t, size_t* n)
{
  size_t l = strlen(t); if(!strcmp(t,"~")) l = 0;
  uint8_t* b = malloc(l/2+1); for(size_t i=0;i<l/2;i++) b[i]=(uint8_t)(hexv(t[2*i])*16+hexv(t[2*i+1]));
  *n = l/2; return b;
}

static void ser_value(sb_t* s, rbusValue_t v);
static void ser_object(sb_t* s, rbusObject_t o)
{
  if(!o){ sb_c(s,'!'); return; }
  sb_pct(s, rbusObject_GetName(o)); sb_c(s,'(');
  int first=1;
  for(rbusProperty_t p = rbusObject_GetProperties(o); p; p = rbusProperty_GetNext(p))
  { if(!first) sb_c(s,','); first=0; sb_pct(s,rbusProperty_GetName(p)); sb_c(s,'='); ser_value(s,rbusProperty_GetValue(p)); }
  sb_c(s,')');
}
static void ser_value(sb_t* s, rbusValue_t v)
{
  if(!v){ sb_s(s,"null"); return; }
  int n=0; const char* st; const uint8_t* b;
  switch(rbusValue_GetType(v))
  {
    case RBUS_BOOLEAN: sb_f(s,"bool:%d",(int)rbusValue_GetBoolean(v)); break;
    case RBUS_CHAR: sb_f(s,"char:%d",(int)(unsigned char)rbusValue_GetChar(v)); break;
    case RBUS_BYTE: sb_f(s,"byte:%d",(int)rbusValue_GetByte(v)); break;
    case RBUS_INT8: sb_f(s,"i8:%d",rbusValue_GetInt8(v)); break;
    case RBUS_UINT8: sb_f(s,"u8:%u",rbusValue_GetUInt8(v)); break;
    case RBUS_INT16: sb_f(s,"i16:%d",rbusValue_GetInt16(v)); break;
    case RBUS_UINT16: sb_f(s,"u16:%u",rbusValue_GetUInt16(v)); break;
    case RBUS_INT32: sb_f(s,"i32:%d",rbusValue_GetInt32(v)); break;
    case RBUS_UINT32: sb_f(s,"u32:%u",rbusValue_GetUInt32(v)); break;
    case RBUS_INT64: sb_f(s,"i64:%" PRId64,rbusValue_GetInt64(v)); break;
    case RBUS_UINT64: sb_f(s,"u64:%" PRIu64,rbusValue_GetUInt64(v)); break;
    case RBUS_SINGLE: { float f=rbusValue_GetSingle(v); uint32_t u; memcpy(&u,&f,4); sb_f(s,"f32:%08x",u); break; }
    case RBUS_DOUBLE: { double f=rbusValue_GetDouble(v); uint64_t u; memcpy(&u,&f,8); sb_f(s,"f64:%016" PRIx64,u); break; }
    case RBUS_DATETIME: { rbusDateTime_t const* t=rbusValue_GetTime(v);
      if(!t) sb_s(s,"dt:!");
      else sb_f(s,"dt:%d/%d/%d/%d/%d/%d/%d/%d/%d/%d/%d/%d",t->m_time.tm_sec,t->m_time.tm_min,t->m_time.tm_hour,t->m_time.tm_mday,t->m_time.tm_mon,
        t->m_time.tm_year,t->m_time.tm_wday,t->m_time.tm_yday,t->m_time.tm_isdst,t->m_tz.m_tzhour,t->m_tz.m_tzmin,(int)t->m_tz.m_isWest); break; }
    case RBUS_STRING: st=rbusValue_GetString(v,&n); sb_s(s,"str:"); sb_pct(s,st); break;
    case RBUS_BYTES: b=rbusValue_GetBytes(v,&n); sb_s(s,"bytes:"); if(n<=0) sb_c(s,'~'); else sb_hex(s,b,n); break;
    case RBUS_PROPERTY: { sb_s(s,"prop:("); rbusProperty_t p=rbusValue_GetProperty(v); int first=1;
      for(;p;p=rbusProperty_GetNext(p)){ if(!first) sb_c(s,','); first=0; sb_pct(s,rbusProperty_GetName(p)); sb_c(s,'='); ser_value(s,rbusProperty_GetValue(p)); }
      sb_c(s,')'); break; }
    case RBUS_OBJECT: sb_s(s,"obj:"); ser_object(s,rbusValue_GetObject(v)); break;
    case RBUS_NONE: sb_s(s,"none"); break;
    default: sb_f(s,"type%d",(int)rbusValue_GetType(v)); break;
  }
}
static rbusValue_t parse_value(const char** pp);
static rbusProperty_t parse_props(const char** pp) /* at '(' ; returns owned list head or NULL */
{
  rbusProperty_t head=NULL; const char* p=*pp; if(*p=='(') p++;
  while(*p && *p!=')')
  {
    char* nm = pct_dec(&p,"=,)"); if(*p=='=') p++;
    rbusValue_t v = parse_value(&p);
    rbusProperty_t pr; rbusProperty_Init(&pr,nm,v); if(v) rbusValue_Release(v); free(nm);
    if(!head) head=pr; else { rbusProperty_Append(head,pr); rbusProperty_Release(pr); }
    if(*p==',') p++;
  }
  if(*p==')') p++;
  *pp=p; return head;
}
static rbusObject_t parse_object(const char** pp)
{
  const char* p=*pp; if(*p=='!'){ (*pp)++; return NULL; }
  char* nm=pct_dec(&p,"("); rbusObject_t o; rbusObject_Init(&o,nm); free(nm);
  rbusProperty_t pr=parse_props(&p); if(pr){ rbusObject_SetProperties(o,pr); rbusProperty_Release(pr);} *pp=p; return o;
}
static rbusValue_t parse_value(const char** pp)
{
  const char* p=*pp; rbusValue_t v; char t[16]; size_t k=0;
  while(*p && *p!=':' && *p!=',' && *p!=')' && *p!=' ' && k<15) t[k++]=*p++;
  t[k]=0;
  if(!strcmp(t,"null")){ *pp=p; return NULL; }
  rbusValue_Init(&v);
  if(*p==':') p++;
  if(!strcmp(t,"none")) {}
  else if(!strcmp(t,"str")){ char* s=pct_dec(&p,",) "); rbusValue_SetString(v,s); free(s); }
  else if(!strcmp(t,"bytes")){ const char* e=p; while(isxdigit((unsigned char)*e)||*e=='~') e++; char* h=strndup(p,e-p); size_t n; uint8_t* b=hexdec(h,&n);
    rbusValue_SetBytes(v,b,(int)n); free(b); free(h); p=e; }
  else if(!strcmp(t,"obj")){ rbusObject_t o=parse_object(&p); rbusValue_SetObject(v,o); if(o) rbusObject_Release(o); }
  else if(!strcmp(t,"prop")){ rbusProperty_t q=parse_props(&p); rbusValue_SetProperty(v,q); if(q) rbusProperty_Release(q); }
  else if(!strcmp(t,"dt")){ rbusDateTime_t d; memset(&d,0,sizeof d); int w=0,c=0;
    sscanf(p,"%d/%d/%d/%d/%d/%d/%d/%d/%d/%d/%d/%d%n",&d.m_time.tm_sec,&d.m_time.tm_min,&d.m_time.tm_hour,&d.m_time.tm_mday,&d.m_time.tm_mon,&d.m_time.tm_year,
      &d.m_time.tm_wday,&d.m_time.tm_yday,&d.m_time.tm_isdst,&d.m_tz.m_tzhour,&d.m_tz.m_tzmin,&w,&c); d.m_tz.m_isWest=w; p+=c; rbusValue_SetTime(v,&d); }
  else
  {
    const char* e=p; while(*e && *e!=',' && *e!=')' && *e!=' ') e++;
    char* num=strndup(p,e-p); p=e;
    if(!strcmp(t,"bool")) rbusValue_SetBoolean(v,atoi(num)!=0);
    else if(!strcmp(t,"char")) rbusValue_SetChar(v,(char)atoi(num));
    else if(!strcmp(t,"byte")) rbusValue_SetByte(v,(unsigned char)atoi(num));
    else if(!strcmp(t,"i8")) rbusValue_SetInt8(v,(int8_t)atoi(num));
    else if(!strcmp(t,"u8")) rbusValue_SetUInt8(v,(uint8_t)atoi(num));
    else if(!strcmp(t,"i16")) rbusValue_SetInt16(v,(int16_t)atoi(num));
    else if(!strcmp(t,"u16")) rbusValue_SetUInt16(v,(uint16_t)atoi(num));
    else if(!strcmp(t,"i32")) rbusValue_SetInt32(v,(int32_t)strtoll(num,0,10));
    else if(!strcmp(t,"u32")) rbusValue_SetUInt32(v,(uint32_t)strtoull(num,0,10));
    else if(!strcmp(t,"i64")) rbusValue_SetInt64(v,strtoll(num,0,10));
    else if(!strcmp(t,"u64")) rbusValue_SetUInt64(v,strtoull(num,0,10));
    else if(!strcmp(t,"f32")){ uint32_t u=(uint32_t)strtoul(num,0,16); float f; memcpy(&f,&u,4); rbusValue_SetSingle(v,f); }
    else if(!strcmp(t,"f64")){ uint64_t u=strtoull(num,0,16); double f; memcpy(&f,&u,8); rbusValue_SetDouble(v,f); }
    else { fprintf(stderr,"codec: bad value type %s\n",t); exit(97); }
    free(num);
  }
  *pp=p; return v;
}
static void ser_filter(sb_t* s, rbusFilter_t f)
{
  if(!f){ sb_c(s,'!'); return; }
  if(rbusFilter_GetType(f)==RBUS_FILTER_EXPRESSION_RELATION){ sb_f(s,"R%d(",(int)rbusFilter_GetRelationOperator(f)); ser_value(s,rbusFilter_GetRelationValue(f)); sb_c(s,')'); }
  else { sb_f(s,"L%d(",(int)rbusFilter_GetLogicOperator(f)); ser_filter(s,rbusFilter_GetLogicLeft(f)); sb_c(s,','); ser_filter(s,rbusFilter_GetLogicRight(f)); sb_c(s,')'); }
}
static rbusFilter_t parse_filter(const char** pp)
{
  const char* p=*pp; if(*p=='!'){ (*pp)++; return NULL; }
  char k=*p++; int op=*p++-'0'; p++; rbusFilter_t f=NULL;
  if(k=='R'){ rbusValue_t v=parse_value(&p); rbusFilter_InitRelation(&f,op,v); rbusValue_Release(v); }
  else { rbusFilter_t l=parse_filter(&p); if(*p==',') p++; rbusFilter_t r=parse_filter(&p); rbusFilter_InitLogic(&f,op,l,r); if(l) rbusFilter_Release(l); if(r) rbusFilter_Release(r); }
  if(*p==')') p++;
  *pp=p; return f;
}
