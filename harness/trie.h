/* Reference table look-up (tries generated by lib/tabgen.py) */
typedef struct { const int (*nx)[257]; const int *row; const int *val; const unsigned *vd; const int *vo; } trie_t;
static int tnext(const trie_t *t,int n,int c){ int r=t->row[n]; return r?t->nx[r][c]:0; }
/* longest match of p[0..n); returns its length (0: none), *v = value index */
static int tmatch(const trie_t *t,const unsigned char *p,int n,int *v){
	int i,s=0,best=0;
	for(i=0;i<n;i++){ s=tnext(t,s,p[i]); if(!s) break; if(t->val[s]>=0){ best=i+1; *v=t->val[s]; } }
	return best;
}
