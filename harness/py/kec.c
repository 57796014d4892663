/* keccak-f[1600] written for the reference side (independent of the code under test) */
#include <stdint.h>
#include <string.h>
#define R(x,n) (((x)<<(n))|((x)>>(64-(n))))
static void f(uint64_t*a){
  uint8_t lf=1;
  for(int r=0;r<24;r++){
    uint64_t c[5],d;
    for(int x=0;x<5;x++)c[x]=a[x]^a[x+5]^a[x+10]^a[x+15]^a[x+20];
    for(int x=0;x<5;x++){d=c[(x+4)%5]^R(c[(x+1)%5],1);for(int y=0;y<25;y+=5)a[y+x]^=d;}
    int x=1,y=0;uint64_t cur=a[x+5*y];
    for(int t=0;t<24;t++){int s=((t+1)*(t+2)/2)%64;int Y=(2*x+3*y)%5;x=y;y=Y;uint64_t sh=a[x+5*y];a[x+5*y]=s?R(cur,s):cur;cur=sh;}
    for(int yy=0;yy<25;yy+=5){uint64_t t[5];memcpy(t,a+yy,40);for(int i=0;i<5;i++)a[yy+i]=t[i]^((~t[(i+1)%5])&t[(i+2)%5]);}
    for(int j=0;j<7;j++){int p=(1<<j)-1;if(lf&1)a[0]^=1ULL<<p;lf=(lf<<1)^((lf>>7)*0x71);}
  }
}
void kec256(const uint8_t*in,size_t n,uint8_t*out){
  uint64_t a[25]={0};uint8_t b[136];
  while(n>=136){for(int i=0;i<17;i++){uint64_t v;memcpy(&v,in+8*i,8);a[i]^=v;}f(a);in+=136;n-=136;}
  memset(b,0,136);memcpy(b,in,n);b[n]^=1;b[135]^=0x80;
  for(int i=0;i<17;i++){uint64_t v;memcpy(&v,b+8*i,8);a[i]^=v;}f(a);memcpy(out,a,32);
}
