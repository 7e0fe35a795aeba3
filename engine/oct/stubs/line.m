function h = line(varargin)
% plotting is not under test
h = 1 ;
end
