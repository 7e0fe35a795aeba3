function vt_step(dir)
% serves one request: decodes calls, runs them, writes the results
f = fopen([dir '/req'],'r') ; b = fread(f,inf,'uint8=>uint8')' ; fclose(f) ;
p = 1 ; n = double(typecast(b(p:p+3),'int32')) ; p += 4 ;
res = cell(1,n) ; out = {} ;
for k = 1:n
  [fn,p] = vt_get(b,p,res) ; [nout,p] = vt_get(b,p,res) ; [args,p] = vt_get(b,p,res) ;
  r = cell(1,nout) ;
  try
    if nout == 0, feval(fn,args{:}) ; else [r{:}] = feval(fn,args{:}) ; end
    res{k} = r ; o = vt_put({true,r}) ;
  catch e
    m = e.message ; if isempty(m), m = 'error' ; end
    res{k} = r ; o = vt_put({false,m}) ;
  end
  out{end+1} = o ;
end
f = fopen([dir '/rsp'],'w') ; fwrite(f,[out{:}],'uint8') ; fclose(f) ;
printf('\n@@DONE\n') ; fflush(stdout) ;
end

function [v,p] = vt_get(b,p,res)
names = {'double','single','int8','uint8','int16','uint16','int32','uint32','int64','uint64'} ;
h = double(typecast(b(p:p+7),'int32')) ; t = h(1) ; nd = h(2) ; p += 8 ;
d = double(typecast(b(p:p+4*nd-1),'int32')) ; p += 4*nd ; m = prod(d) ;
if t <= 10
  w = [8 4 1 1 2 2 4 4 8 8](t) ;
  v = reshape(typecast(b(p:p+w*m-1),names{t}),d) ; p += w*m ;
elseif t == 11
  v = reshape(b(p:p+m-1) != 0,d) ; p += m ;
elseif t == 12
  v = reshape(char(b(p:p+m-1)),d) ; p += m ;
elseif t == 13
  v = cell(d) ; for i = 1:m, [v{i},p] = vt_get(b,p,res) ; end
elseif t == 14
  v = struct() ; for i = 1:m, [s,p] = vt_get(b,p,res) ; [v.(s),p] = vt_get(b,p,res) ; end
elseif t == 15
  [r,p] = vt_get(b,p,res) ; v = res{r(1)}{r(2)} ;
elseif t == 16
  [s,p] = vt_get(b,p,res) ; v = str2func(s) ;
elseif t == 18
  [s,p] = vt_get(b,p,res) ; [r,p] = vt_get(b,p,res) ; v = complex(s,r) ;
elseif t == 17
  [s,p] = vt_get(b,p,res) ; v = sparse(s) ;
end
end

function b = vt_put(v)
names = {'double','single','int8','uint8','int16','uint16','int32','uint32','int64','uint64'} ;
if issparse(v), v = full(v) ; end
s = size(v) ; hd = @(t) typecast(int32([t numel(s) s]),'uint8') ; 
if iscell(v)
  c = cell(1,numel(v)+1) ; c{1} = hd(13) ; for i = 1:numel(v), c{i+1} = vt_put(v{i}) ; end ; b = [c{:}] ;
elseif isstruct(v)
  f = fieldnames(v) ; c = {hd(14), vt_put(numel(f))} ;
  for i = 1:numel(f), c{end+1} = vt_put(f{i}) ; end
  for k = 1:numel(v), for i = 1:numel(f), c{end+1} = vt_put(v(k).(f{i})) ; end, end ; b = [c{:}] ;
elseif islogical(v)
  b = [hd(11), uint8(v(:)')] ;
elseif ischar(v)
  b = [hd(12), uint8(v(:)')] ;
elseif isnumeric(v)
  if iscomplex(v), b = [hd(18), vt_put(real(v)), vt_put(imag(v))] ; return ; end
  b = [hd(find(strcmp(class(v),names))), typecast(v(:)','uint8')] ;
else
  b = vt_put(['<' class(v) '>']) ;
end
b = b(:)' ;
end
