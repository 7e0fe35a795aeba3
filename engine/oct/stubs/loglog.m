function h = loglog(varargin)
% plotting is not under test
h = 1 ;
end
