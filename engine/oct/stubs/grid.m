function h = grid(varargin)
% plotting is not under test
h = 1 ;
end
